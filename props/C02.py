import os
SOLVER=os.environ.get('SOLVER','cvc5')
LOOP = {"libirc/util.c": {"str_cmphelper": {"n": 1, 0: (
  "__CPROVER_assigns(i, h, l, G)\n"
  "__CPROVER_loop_invariant(0 <= i && i <= LA && i <= LB && i <= len)\n"
  "__CPROVER_loop_invariant(K < i ==> FOLDR(a[K], el) == FOLDR(b[K], el))\n"
  "__CPROVER_loop_invariant(G + 1 == (size_t)i)\n"
  "__CPROVER_decreases(LA - i)", "G = i;")}}}
W = [("str_asciicmp", "str_asciicmp(a, b)"), ("str_strictrfc1459cmp", "str_strictrfc1459cmp(a, b)"), ("str_rfc1459cmp", "str_rfc1459cmp(a, b)"),
     ("str_asciincmp", "str_asciincmp(a, b, n)"), ("str_strictrfc1459ncmp", "str_strictrfc1459ncmp(a, b, n)"), ("str_rfc1459ncmp", "str_rfc1459ncmp(a, b, n)")]
ALLW = [w[0] for w in W]
PROP = dict(
  obligations=[
    dict(name="str_cmphelper", file="c02_cmp.c", entry="H_helper", defs=["-DPROVE_HELPER"], enforce=["str_cmphelper"], loops=LOOP, solver=SOLVER,
         functions=["libirc/util.c:str_cmphelper"], timeout=250, weight=9)]
  + [dict(name=w, file="c02_cmp.c", entry="H_wrap", defs=["-DPROVE_WRAPPERS", "-DWRAPCALL=" + call], enforce=[w], replace=["str_cmphelper"],
          functions=["libirc/util.c:" + w]) for w, call in W]
  + [dict(name=f, file="c02_cmp.c", entry="H_" + f, defs=["-DPROVE_DISPATCH"], enforce=[f], replace=ALLW,
          functions=["libirc/isupport.c:" + f]) for f in ("irccmp", "ircncmp")],
  drivers=[dict(file="d_cmp.c", harnesses=[
    dict(name="cmp_all_pairs", mode="exhaustive", time=20, bound="all 65536 pairs of one-character strings"),
    dict(name="cmp_strings", mode="exhaustive", time=20, bound="strings up to 3 characters over aA[{^, limit 0..4"),
    dict(name="cmp_random", time=6, bound="strings up to 38 characters")])],
  trusted=["CBMC 6.11 C semantics and dfcc contract instrumentation", "cvc5 1.1.2", "CBMC's SAT back end"],
  assumptions=["strings shorter than 2^31-1 characters (the loop counter is an int)"],
)
