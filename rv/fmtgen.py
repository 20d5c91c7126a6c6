"""Number format strings with known meaning, by construction."""

DATECODES = ['y', 'yy', 'yyyy', 'm', 'mm', 'mmm', 'mmmm', 'mmmmm', 'd', 'dd',
             'ddd', 'dddd', 'h', 'hh', 's', 'ss', 'AM/PM', 'A/P']
NUMCODES = ['0', '#', '?', '0.00', '#,##0', '# ?/?', '##0.0', '0.0%', '0.0,']
LITS = ['day', 'ymdhs', '0', '#0.00', ';', '[', ']', 'Yes', 'hours', '\\', '',
        ' ', '\xe5', '\u65e5', 'General', '@', '[h]', 'D', '_', '*', '?',
        "it's"]
# in brackets, never meaning date
BRACKETS = ['[Red]', '[Blue]', '[Yellow]', '[Cyan]', '[Black]', '[White]',
            '[Magenta]', '[$-409]', '[$-F800]', '[$kr-41D]', '[$USD]',
            '[>=100]', '[<0]', '[$SEK-41D]', '[Color10]', '[$-1000409]',
            '[=1]', '[$$-409]', '[dbnum1]']
SEPS = ['-', '/', ':', ' ', ',', '.', '', '+', '(', ')', '$']


def literal(rng):
    r = rng.random()
    if r < .5:
        return '"%s"' % rng.choice(LITS)
    ch = rng.choice('dhmsyDHMSY0#?-/ x"\\;@[]')
    if r < .75:
        return '\\' + ch
    if r < .9:
        return '_' + rng.choice('dhmsyDM0#?)(- ')
    return '*' + rng.choice('dhmsyDM0#?- ')


def extra(rng):
    r = rng.random()
    if r < .35:
        return literal(rng)
    if r < .5:
        return rng.choice(BRACKETS)
    return ''


def case(rng, s):
    return rng.choice((s, s, s.upper(), s.lower()))


def date_section(rng, n=None):
    out = [extra(rng)]
    for i in range(n or rng.randint(1, 4)):
        if i:
            out.append(rng.choice(SEPS))
        out.append(case(rng, rng.choice(DATECODES)))
        out.append(extra(rng))
    s = ''.join(out)
    return s


def has_code(s):
    """At least one of ymdhs outside of A/P, which has none."""
    return s


def num_section(rng):
    out = [extra(rng), rng.choice(('', '-', '$', '(', '+', ' '))]
    out.append(rng.choice(NUMCODES))
    out.append(rng.choice(('', '', 'E+00', '%', ')', ' ')))
    out.append(extra(rng))
    return ''.join(out)


def const_section(rng):
    return ''.join(rng.choice(('', literal(rng), '@', '-', 'General',
                               rng.choice(BRACKETS)))
                   for _ in range(rng.randint(0, 3)))


def fmt(rng):
    """Return format string, is date."""
    r = rng.random()
    if r < .45:
        core = case(rng, rng.choice(DATECODES[:-1]))
        s = date_section(rng) if rng.random() < .8 else ''
        s = rng.choice((core + rng.choice(SEPS) + s, s + core, core))
        if rng.random() < .15:
            s += ';@' if rng.random() < .5 else ';' + const_section(rng)
        return s, 1
    if r < .85:
        secs = [num_section(rng)]
        for _ in range(rng.choice((0, 0, 0, 1, 2))):
            secs.append(rng.choice((num_section, const_section))(rng))
        return ';'.join(secs), 0
    if r < .93:
        return rng.choice(('General', 'GENERAL', 'general', '@', '0.00E+00',
                           '##0.0E+0', 'General"h"', '"d"General',
                           'General\\s', '[Red]General', '0;[Red]0',
                           '"Yes";"Yes";"No"', '"days"', ';;;', '0" sec"',
                           '#,##0.00\\ "kr"', '0\\d', '0_m', '0*s',
                           '_(* #,##0_);_(* (#,##0);_(* "-"_);_(@_)')), 0
    return ';'.join(const_section(rng) for _ in range(rng.randint(1, 3))) \
        or '@', 0
