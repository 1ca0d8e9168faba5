"""Second opinion on an obligation z3 decided: the same assertions, as SMT-LIB text, to cvc5."""
import cvc5
def ask(solver, ms):
    "'unsat' / 'sat' / 'unknown' / 'unread' (cvc5 does not read what z3 wrote)"
    txt = solver.to_smt2()
    try:
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption('tlimit-per', str(ms))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'ob')
        sm = p.getSymbolManager()
        r = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = c.invoke(s, sm)
            o = o.decode() if isinstance(o, bytes) else str(o)
            if 'unsat' in o: r = 'unsat'
            elif 'sat' in o.split(): r = 'sat'
            elif 'error' in o: return 'unread'
        return r
    except Exception as e:
        return 'unread'
