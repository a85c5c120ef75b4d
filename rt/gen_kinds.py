#!/usr/bin/env python3
"""Generates kinds.inc: one task kind per (arity, void/non-void, type set) of the header.
usage: gen_kinds.py MAXARITY [plain]     plain: only arithmetic types, all convertible into each other"""
import sys
N = int(sys.argv[1])
# (type, expression computing the value from the 64 bit hash h, equality test)
TY = [("int64_t", "(int64_t)H", "{0}=={1}"), ("int", "(int)H", "{0}=={1}"), ("double", "(double)(int)(H>>7)", "{0}=={1}"),
      ("void*", "(void*)(uintptr_t)H", "{0}=={1}"), ("char", "(char)(H>>3)", "{0}=={1}"), ("uint16_t", "(uint16_t)(H>>5)", "{0}=={1}"),
      ("struct vpair", "mkpair(H)", "eqpair({0},{1})"), ("float", "(float)(short)(H>>9)", "{0}=={1}"), ("uint64_t", "(uint64_t)~H", "{0}=={1}"),
      ("uint8_t", "(uint8_t)(H>>11)", "{0}=={1}")]
SETS = [[0, 3, 8, 2, 6, 0, 8, 3], [1, 4, 2, 5, 9, 7, 6, 1, 0, 3, 8, 4, 2]]
RES = [[0, 6, 2, 3, 8, 0, 6], [1, 0, 4, 7, 5, 2, 9, 3]]
if sys.argv[2:] == ["plain"]:
    SETS = [[0, 1, 8, 0, 5, 0, 8, 1], [1, 4, 2, 5, 9, 7, 0, 1, 0, 8, 4, 2, 7]]
    RES = [[0, 1, 2, 4, 8, 0, 5], [1, 0, 4, 7, 5, 2, 9, 8]]
o = []
K = []
k = 0
for s in range(2):
    for n in range(N + 1):
        for void in (0, 1):
            tys = [TY[SETS[s][(j + n) % len(SETS[s])]] for j in range(n)]
            if n: tys[0] = ("int", "id", "{0}=={1}")
            r = TY[RES[s][(n * 3) % len(RES[s])]]
            nm = f"K{k}"
            def hv(j, idv="id"): return tys[j][1].replace("H", f"H({idv},{j})") if j else idv
            decl = "".join(f", {t[0]}, a{j}" for j, t in enumerate(tys))
            call = "".join(f", {hv(j)}" for j in range(n))
            run = ", ".join(hv(j) for j in range(n))
            ok = " && ".join(["1"] + ["(" + t[2].format(f"a{j}", "(" + hv(j, "a0") + ")") + ")" for j, t in enumerate(tys) if j])
            idx = "a0" if n else f"kind0_cur({k})"
            mac = ("VOID_TASK_%d(%s%s)" if void else "TASK_%d(%s%s)")
            head = f"VOID_TASK_{n}({nm}{decl})" if void else f"TASK_{n}({r[0]}, {nm}{decl})"
            rexp = r[1].replace("H", "H(id,77)")
            o.append(f"{head}\n{{ int id = {idx}; body(__lace_worker, __lace_dq_head, id, {ok}, {k});"
                     + ("" if void else f" return {rexp};") + " }")
            W = "WorkerP *__lace_worker, Task *__lace_dq_head, int id"
            use = "(void)id; (void)__lace_dq_head; (void)__lace_worker;"
            o.append(f"static Task *{nm}_sp({W}) {{ {use} SPAWN({nm}{call}); return __lace_dq_head; }}")
            def res(expr):
                if void: return f"{expr}; return 1;"
                return f"{r[0]} r = {expr}; return {r[2].format('r', '(' + rexp + ')')};"
            o.append(f"static int {nm}_sy({W}) {{ {use} {res(f'SYNC({nm})')} }}")
            o.append(f"static int {nm}_ca({W}) {{ {use} {res(f'CALL({nm}{call})')} }}")
            sig = "(WorkerP *, Task *" + "".join(", " + t[0] for t in tys) + ")"
            o.append(f"LACE_TYPEDEF_CB({'void' if void else r[0]}, {nm}_cbt{''.join(', ' + t[0] for t in tys)})")
            o.append(f"static int {nm}_cb({W}) {{ {use} {nm}_cbt volatile f = TASK({nm}); {res(f'WRAP(f{call})')} }}")
            o.append(f"static int {nm}_nf(int id) {{ (void)id; {res(f'NEWFRAME({nm}{chr(44) + run if n else str()})')} }}")
            o.append(f"static int {nm}_tg(int id) {{ (void)id; TOGETHER({nm}{',' + run if n else ''}); return 1; }}")
            o.append(f"static int {nm}_ru(int id) {{ (void)id; {res(f'RUN({nm}{chr(44) + run if n else str()})')} }}")
            o.append(f"static int {nm}_rx(int id) {{ (void)id; {res(f'RUNEX({nm}{chr(44) + run if n else str()})')} }}")
            if void: o.append(f"static int {nm}_rk(Task *t, int id) {{ (void)t; (void)id; return 1; }}")
            else: o.append(f"static int {nm}_rk(Task *t, int id) {{ (void)id; {r[0]} r = *({r[0]} *)TASK_RESULT(t); return {r[2].format('r', '(' + rexp + ')')}; }}")
            K.append((nm, n, void)); k += 1
o.append("static const struct kind KT[] = {")
for nm, n, v in K: o.append(f"  {{ {n}, {v}, {nm}_sp, {nm}_sy, {nm}_ca, {nm}_cb, {nm}_nf, {nm}_tg, {nm}_ru, {nm}_rx, {nm}_rk }},")
o.append("};")
o.append(f"const int NKINDS = {k};")
print("\n".join(o))
