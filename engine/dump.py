import sys
from terms import *
d=extract()
m=Module(d)
for n in sys.argv[1:]:
    f=m.need(n); t=T(f)
    print("==",n,[p['n'] for p in f.params])
    for bi,b in enumerate(f.blocks):
        print(" b%d pred=%s succ=%s nest=%s"%(bi,f.pred[bi],f.succ[bi],f.loop_nest(bi)))
        for I in b:
            if I.op=='store': print("   store",show(t.ref(I.args[1]),f),"<-",show(t.ref(I.args[0]),f), I.line)
            elif I.op=='call': print("   call",I.id,I.callee,[show(t.ref(a),f) for a in I.args], I.line)
            elif I.op=='phi': print("   phi",I.id,f.names.get(I.id),[(show(t.ref(x),f),b) for x,b in I.d['in']])
            elif I.op in('br','switch','ret'): print("   ",I.op,[show(t.ref(a),f) for a in I.args], I.d.get('cases',''))
