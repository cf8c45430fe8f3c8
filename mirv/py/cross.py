"""A second solver's opinion: every `unsat` z3 gave for a contract (obligations it discharged and
branches it ruled out), put to cvc5 as SMT-LIB text. Used by the thorough tier."""
import time


def ask(text, ms):
    import cvc5
    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setOption('tlimit-per', str(ms))
    p = cvc5.InputParser(s)
    sm = p.getSymbolManager()
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text.replace('\\|', ';'), 'q')
    out = ''
    while True:
        c = p.nextCommand()
        if c.isNull():
            return out.strip()
        out += c.invoke(s, sm) or ''


def confirm(log, budget, ms=10000):
    """log: {text: label}. Returns counts: confirmed, refuted (with the labels), unanswered."""
    t0 = time.time()
    res = dict(asked=0, confirmed=0, refuted=[], unanswered=0, not_asked=0)
    for text, label in log.items():
        if time.time() - t0 > budget:
            res['not_asked'] += 1
            continue
        res['asked'] += 1
        try:
            a = ask(text, ms)
        except Exception as e:     # an option or a construct cvc5 does not take
            a = 'error: %s' % e
        if a == 'unsat':
            res['confirmed'] += 1
        elif a == 'sat':
            res['refuted'].append(label)
        else:
            res['unanswered'] += 1
            res['example'] = (a or 'nothing')[:200]
    res['solver_s'] = round(time.time() - t0, 2)
    return res
