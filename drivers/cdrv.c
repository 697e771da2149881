// Runs a script of commands on a binary VSS tree with the C parser library.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "cparserlib.h"

static FILE* out;
static void hex(const char* s) {
    if (s == NULL) { fprintf(out, " -"); return; }
    fprintf(out, " x");
    for (const unsigned char* p = (const unsigned char*)s; *p; p++) fprintf(out, "%02x", *p);
}
static void dump(long n, long parent) {
    fprintf(out, "node %d %d %d %d", (int)VSSgetType(n), VSSgetValidation(n), VSSgetNumOfChildren(n), VSSgetParent(n) == parent);
    hex(VSSgetName(n)); hex(VSSgetUUID(n)); hex(VSSgetDescr(n)); hex(VSSgetDatatype(n)); hex(VSSgetUnit(n));
    int k = VSSgetNumOfAllowedElements(n);
    fprintf(out, " %d", k);
    for (int i = 0; i < k; i++) hex(VSSgetAllowedElement(n, i));
    fprintf(out, "\n");
    for (int i = 0; i < VSSgetNumOfChildren(n); i++) dump(VSSgetChild(n, i), n);
    if (VSSgetChild(n, VSSgetNumOfChildren(n)) != 0) fprintf(out, "extra child\n");
}

int main(int argc, char** argv) {
    FILE* in = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    char cmd[32], a[4096], scope[4096];
    int any, leafs;
    long root = 0;
    searchData_t* sd = (searchData_t*)malloc(sizeof(searchData_t) * MAXFOUNDNODES);
    noScopeList_t* ns = (noScopeList_t*)calloc(16, sizeof(noScopeList_t));
    while (fscanf(in, "%31s", cmd) == 1) {
        if (strcmp(cmd, "read") == 0) {
            if (fscanf(in, "%4095s", a) != 1) return 3;
            root = VSSReadTree(a);
            if (root == 0) { fprintf(out, "noroot\n"); break; }
        } else if (strcmp(cmd, "dump") == 0) {
            dump(root, 0);
        } else if (strcmp(cmd, "search") == 0) {
            int nscope;
            if (fscanf(in, "%4095s %d %d %d", a, &any, &leafs, &nscope) != 4) return 3;
            for (int i = 0; i < nscope; i++) {
                if (fscanf(in, "%4095s", scope) != 1) return 3;
                strncpy(ns[i].path, scope, MAXCHARSPATH - 1);
            }
            int v = -1;
            char* path = strdup(a);  // exact size: reads past the end are seen
            int k = VSSSearchNodes(path, root, MAXFOUNDNODES, sd, any, leafs, nscope, ns, &v);
            free(path);
            fprintf(out, "found %d %d", k, v);
            for (int i = 0; i < k; i++) { hex(sd[i].responsePaths); hex(VSSgetName(sd[i].foundNodeHandles)); }
            fprintf(out, "\n");
        } else if (strcmp(cmd, "leafs") == 0) {
            if (fscanf(in, "%4095s", a) != 1) return 3;
            fprintf(out, "count %d\n", VSSGetLeafNodesList(root, a));
        } else if (strcmp(cmd, "uuids") == 0) {
            if (fscanf(in, "%4095s", a) != 1) return 3;
            fprintf(out, "count %d\n", VSSGetUuidList(root, a));
        } else if (strcmp(cmd, "write") == 0) {
            if (fscanf(in, "%4095s", a) != 1) return 3;
            VSSWriteTree(a, root);
        }
    }
    fprintf(out, "end\n");
    fclose(out);
    return 0;
}
