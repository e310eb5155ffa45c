from common import *
plant("S29","C20",[("milter/manager/milter-manager-children.c","        priv->requested_yes_steps |= milter_option_get_step_yes(option);","        priv->requested_yes_steps = milter_option_get_step_yes(option);")],
 "two children of which the one that replies first requests skipping bodies and the later one doesn't", "the request of the first child is forgotten: the MTA isn't told about SKIP", r'''
from e2e import *
T = tempfile.mkdtemp(prefix="neg")
os.chmod(T, 0o755)
try:
    bad = 0
    for steps in ((0x400, 0), (0, 0x400), (0x400, 0x400)):
        kids = [Child({'O': [('sleep', 0.7 * n), ('O', struct.pack("!III", 6, 0x1ff, s))]}) for n, s in enumerate(steps)]
        with Manager([("k%d" % n, k, "") for n, k in enumerate(kids)]) as m:
            t = MTA(m.port, 20)
            r = t.negotiate()
            print(steps, r)
            o = [d for op, d in r if op == 'O']
            if len(o) != 1 or not struct.unpack("!III", o[0][:12])[2] & 0x400: bad = 1
            for k in kids:
                if [struct.unpack("!III", d)[2] for op, d in k.log if op == 'O'] != [0x1fffff]: bad = 1
    sys.exit(bad)
finally: shutil.rmtree(T)
''')
