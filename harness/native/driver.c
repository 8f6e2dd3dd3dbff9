/* Drives the public interface of the C binary parser from a command file and records what it returns. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "cparserlib.h"

static FILE* out;

static void hex(const char* s) {
    if (s == NULL) { fputs("-", out); return; }
    fputs("x", out);
    for (; *s; s++) fprintf(out, "%02x", (unsigned char)*s);
}

static char* unhex(const char* s) {
    size_t n = strlen(s) / 2;
    char* r = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); r[i] = (char)v; }
    r[n] = 0;
    return r;
}

static long nodes[200000];
static int count;

static void dump(long n, long parent, int depth) {
    int me = count;
    if (count >= 200000) { fprintf(out, "TOOMANY\n"); exit(3); }
    nodes[count++] = n;
    fprintf(out, "N %d %d %d %d %d ", me, depth, (int)VSSgetType(n), VSSgetNumOfChildren(n), VSSgetValidation(n));
    hex(VSSgetName(n)); fputs(" ", out);
    hex(VSSgetUUID(n)); fputs(" ", out);
    hex(VSSgetDescr(n)); fputs(" ", out);
    hex(VSSgetDatatype(n)); fputs(" ", out);
    hex(VSSgetUnit(n)); fputs(" ", out);
    int a = VSSgetNumOfAllowedElements(n);
    fprintf(out, "%d", a);
    for (int i = 0; i < a; i++) { fputs(" ", out); hex(VSSgetAllowedElement(n, i)); }
    fprintf(out, " %s\n", VSSgetParent(n) == parent ? "P" : "BADPARENT");
    for (int i = 0; i < VSSgetNumOfChildren(n); i++) dump(VSSgetChild(n, i), n, depth + 1);
    if (VSSgetChild(n, VSSgetNumOfChildren(n)) != 0) fprintf(out, "BADCHILD\n");
}

int main(int argc, char** argv) {
    FILE* in = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    static char line[1 << 20];
    long root = 0;
    while (fgets(line, sizeof line, in)) {
        fflush(out);
        char* op = strtok(line, " \n");
        if (op == NULL) continue;
        fprintf(out, "OP %s\n", op);
        if (*op == 'R') {
            count = 0;
            char* f = unhex(strtok(NULL, " \n"));
            root = VSSReadTree(f);
            free(f);
        } else if (*op == 'D') {
            count = 0;
            dump(root, 0, 0);
        } else if (*op == 'S') {
            /* S root anyDepth leafOnly maxFound nNoScope path [noscope...]; the buffers have exactly the stated size */
            int r = atoi(strtok(NULL, " \n")), any = atoi(strtok(NULL, " \n")), leaf = atoi(strtok(NULL, " \n"));
            int max = atoi(strtok(NULL, " \n")), ns = atoi(strtok(NULL, " \n"));
            char* p = strtok(NULL, " \n");
            char* path = unhex(p + 1);
            noScopeList_t* list = ns ? malloc(sizeof(noScopeList_t) * ns) : NULL;
            for (int i = 0; i < ns; i++) {
                char* q = unhex(strtok(NULL, " \n") + 1);
                strncpy(list[i].path, q, sizeof(path_t) - 1);
                list[i].path[sizeof(path_t) - 1] = 0;
                free(q);
            }
            searchData_t* data = malloc(sizeof(searchData_t) * max);
            int val = -1;
            int found = VSSSearchNodes(path, nodes[r], max, data, any, leaf, ns, list, &val);
            fprintf(out, "F %d %d\n", found, val);
            for (int i = 0; i < found; i++) {
                fputs("M ", out);
                hex(data[i].responsePaths);
                fputs(" ", out);
                hex(VSSgetName(data[i].foundNodeHandles));
                int k = -1;
                for (int j = 0; j < count; j++) if (nodes[j] == data[i].foundNodeHandles) { k = j; break; }
                fprintf(out, " %d\n", k);
            }
            free(data); free(path); free(list);
        } else if (*op == 'L' || *op == 'U' || *op == 'W') {
            int r = atoi(strtok(NULL, " \n"));
            char* f = unhex(strtok(NULL, " \n"));
            if (*op == 'L') fprintf(out, "F %d\n", VSSGetLeafNodesList(nodes[r], f));
            else if (*op == 'U') fprintf(out, "F %d\n", VSSGetUuidList(nodes[r], f));
            else VSSWriteTree(f, nodes[r]);
            free(f);
        }
    }
    fprintf(out, "END\n");
    fclose(out);
    fclose(in);
    return 0;
}
