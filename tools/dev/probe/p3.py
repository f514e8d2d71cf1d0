exec(open('/tmp/probe/p2.py').read())
m={n:e for n,p,e in P}
P=[('r15','C02',m['q15']),('r21','C03',m['q21']),('r33','C07',m['q33']),('r42','C10',[(D,"	if c.Py%c.Dy == 0 {","	if c.Py%c.Dy == 0 && (c.Py/c.Dy <= 11 || c.Dx != 200) {")])]
