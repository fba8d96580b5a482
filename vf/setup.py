import run
run.build_engine()
b = run.Build()
b.start([(k, "dbg") for k in ("ir", "native")])
b.get("ir", "dbg"), b.get("native", "dbg")
print("setup done")
