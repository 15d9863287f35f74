"""Which harness binary decides which property, and how it is built."""

CRATES = {
    "data": {},
    "sys": {},
    "exec": {},
    "base": {},
    "logic": {},
    "wire": {},
    "edit": {},
    # the runtime libraries a compiled program links with
    "aot": dict(flavor="aot", bin="h_aot"),
    # the same harness with vector instructions compiled in
    "basev": dict(dir="base", bin="h_base", flavor="vec",
                  env={"RUSTFLAGS": "-C target-feature=+avx2,+sha,+ssse3,+sse4.1"}),
}


def leg(crate, *args, **kw):
    return dict(crate=crate, args=list(args), **kw)


LEGS = {
    "C01": dict(level="exploration", legs=[leg("data", "C01")]),
    "C02": dict(level="exploration", legs=[leg("data", "C02")]),
    "C03": dict(level="exploration", legs=[leg("data", "C03")]),
    "C04": dict(level="exploration", legs=[leg("data", "C04")]),
    "C05": dict(level="exploration", legs=[leg("data", "C05")]),
    "C06": dict(level="exploration", legs=[leg("sys", "C06")]),
    "C07": dict(level="exploration", legs=[leg("sys", "C07")]),
    "C08": dict(level="exploration", legs=[leg("sys", "C08")]),
    "C09": dict(level="exploration", legs=[leg("sys", "C09")]),
    "C10": dict(level="exploration", legs=[leg("sys", "C10")]),
    "C11": dict(level="exploration", legs=[leg("exec", "C11")]),
    "C12": dict(level="exploration", legs=[leg("exec", "C12")]),
    "C13": dict(level="exploration", legs=[leg("exec", "C13")]),
    "C14": dict(level="exploration", legs=[leg("base", "C14")]),
    "C15": dict(level="exploration", legs=[leg("base", "C15")]),
    "C16": dict(level="exploration", legs=[leg("base", "C16"), leg("basev", "C16", cpu=["avx2", "sha_ni"])]),
    "C17": dict(level="exploration", legs=[leg("base", "C17"), leg("basev", "C17", cpu=["avx2", "sha_ni"])]),
    "C18": dict(level="exploration", legs=[leg("logic", "C18")]),
    "C19": dict(level="exploration", legs=[leg("logic", "C19")]),
    "C20": dict(level="exploration", legs=[leg("logic", "C20")]),
    "C21": dict(level="exploration", legs=[leg("exec", "C21")]),
    "C22": dict(level="exploration", legs=[leg("wire", "C22")]),
    "C23": dict(level="exploration", legs=[leg("wire", "C23")]),
    "C24": dict(level="exploration", legs=[leg("wire", "C24")]),
    "C25": dict(level="exploration", legs=[leg("edit", "C25")]),
    "C26": dict(level="exploration", legs=[leg("edit", "C26")]),
    "C27": dict(level="exploration", legs=[leg("edit", "C27")]),
    "C28": dict(level="exploration", legs=[leg("edit", "C28")]),
}
