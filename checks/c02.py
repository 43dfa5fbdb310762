from checks import c01


class CHECK(c01.CHECK):
    prop = 'C02'
    quick = (2400, 110)
    rule = c01.CHECK.rule + ('  Oracle: a save that reports success left every requested file '
                             'complete and right; a save that failed raised, left the results '
                             'in memory as they were, and a retry writes everything.')
