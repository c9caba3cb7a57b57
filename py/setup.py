import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
for c, x in (("harness", "vh"), ("kani", "replay"), ("kanio", "replayo")):
    try:
        print(vf.build_native(c, x))
    except vf.BuildError as e:
        print(e)
for h, kw in ((["c08_lex1_order"], {}), (["c17_sympy"], dict(crate="kanio"))):
    print(vf.run_kani(h, 300, **kw))
