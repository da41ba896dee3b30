import os, re, common

TYPES = {
    "u64": ("U64", """(transparent-function (to n) {(-> U64 Elem)} n)
(transparent-function (of a) {(-> Elem U64)} a)"""),
    "u8": ("U8", """(function (to n) {(-> U64 Elem)} (conv n))
(function (of a) {(-> Elem U64)} (conv a))"""),
    "pair": ("(: U8 U32 U16)", """(function (to n) {(-> U64 Elem)} (: (conv n) (conv (* n 3)) (conv (+ n 7))))
(function (of a) {(-> Elem U64)}
  @with1 (: (let x) (let y) (let z)) a
  (if (eq? (: x y z) (to (conv x))) (conv x) 424242))"""),
    "boxed": ("(Ref U64)", """(function (to n) {(-> U64 Elem)} (ref n))
(function (of a) {(-> Elem U64)} ~a)"""),
}


def check(ctx):
    eng = ctx.engine("mcs")
    src = open(os.path.join(common.VERIF, "llrl", "p19.llrl")).read()
    mcio = open(os.path.join(common.VERIF, "llrl", "mcio.llrl")).read()
    for name, backend in [("u64", "chibi"), ("u8", "chibi"), ("pair", "chibi"), ("u64", "llvm"), ("pair", "llvm")]:
        ty, defs = TYPES[name]
        text = src.replace(";ELEM-DEFS", defs)
        text = re.sub(r"\bElem\b", ty, text)
        exe = ctx.compile("p19" + name, {"p19": text, "mcio": mcio}, backend=backend)
        if exe:
            ctx.run_engine(eng, "p19", [exe], variant=name + "-" + backend)
    ctx.assumptions += ["elements are moved bytewise independently of their values"]
