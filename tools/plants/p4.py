from common import *
F="milter/manager/milter-manager-leader.c"
plant("S15","C17",[(F,"    if (error->domain != MILTER_MANAGER_CHILDREN_ERROR)\n        return;\n","    if (error->domain == MILTER_MANAGER_CHILD_ERROR)\n        return;\n")],
 "one of several child milters can't be connected to (its socket doesn't exist) while the others are fine, and a fallback status of reject",
 "an error of one milter's connection is answered with the fallback status although the other milters have not decided yet: the whole session is rejected at its negotiation", r"""
from e2e import *
b = Child({'R': ['r']})
with Manager([("a", "unix:/nonexistent/milter.sock", ""), ("b", b, "")], conf='manager.fallback_status = "reject"') as m:
    t = MTA(m.port, 6)
    r = [t.negotiate(), t.connect(), t.helo(), t.mail(), t.rcpt()]
    print(r)
    sys.exit([final(x) for x in r] != ['O', 'c', 'c', 'c', 'r'])
""")
plant("S16","C17",[(F,"milter_client_context_insert_header(priv->client_context,\n                                        index, name, value, &error);","milter_client_context_insert_header(priv->client_context,\n                                        MAX(index, 1), name, value, &error);")],
 "a child milter which inserts a header at the very top of the message (position 0, before the MTA's own Received)", "the header is inserted below the first one", r"""
from e2e import *
c = Child({'E': [('i', struct.pack("!I", 0) + b"X-Top\0yes\0"), 'c']})
with Manager([("a", c, "")]) as m:
    t = MTA(m.port, 6)
    t.negotiate(); t.connect(); t.helo(); t.mail(); t.rcpt(); t.data(); t.header(b"Received", b"by x"); t.header(); t.eoh(); t.body()
    r = t.eom()
    print(r)
    sys.exit(r != [('i', struct.pack("!I", 0) + b"X-Top\0yes\0"), ('c', b"")])
""")
