from mk import *

mk('b77-excluded-prefix','P01',[('marine_qc.py',"""                        not (rec.data['ID'] in ids_to_exclude) and
""","""                        not any(rec.data['ID'].startswith(one.strip()) for one in ids_to_exclude) and
""")],
 "a platform whose ID begins with the whole of a shorter excluded ID","its reports are left out as if it were excluded",'''
with Site() as s:
    s.exclude("SHIP1")
    s.archive(2005, 3, [rep(2005, 3, 2, 6, 30.52, 10.48, "SHIP1", SST=180), rep(2005, 3, 2, 6, 30.52, 20.48, "SHIP12", SST=180)])
    st, out = s.month("marine_qc", 2005, 3, tracking=False)
    check(st == 0, out[-500:])
    rows = s.text("out/2005/03/Variables_200503_base.csv").splitlines()
    check(len(rows) == 2, "%r" % rows)
''')
mk('b79-list-appended','P09',[('marine_qc.py',"""            idfile = open(extdir + '/ID_file.txt', 'w')
""","""            idfile = open(extdir + '/ID_file.txt', 'r+' if os.path.isfile(extdir + '/ID_file.txt') else 'w')
"""),('marine_qc.py',"""import gzip
""","""import gzip
import os
""")],
 "a month run again after the archive has lost a drifter, so that its ID list becomes shorter","the end of the earlier list stays",'''
with Site() as s:
    a = [drifter(2005, 3, d, 6, 10.12, 20.12, "44444") for d in (2, 3)]
    b = [drifter(2005, 3, d, 6, 12.12, 25.12, "55555") for d in (2, 3)]
    for recs in (a + b, a):
        s.archive(2005, 3, recs)
        for d in range(1, 5):
            s.background(2005, 3, d, 10)
        st, out = s.month("marine_qc", 2005, 3)
        check(st == 0, out[-500:])
    ids = s.text("out/2005/03/ID_file.txt").splitlines()
    check(len(ids) == 1, "%r" % ids)
''')
mk('b80-new-year','P06',[('marine_qc.py',"""                                                                y_year, y_month, y_day)
""","""                                                                readyear, y_month, y_day)
""")],
 "reports of 1 January","they get the field of 31 December of their own year, or none",'''
with Site() as s:
    s.archive(2005, 1, [drifter(2005, 1, 1, 6, 10.12, 20.12, "55555"), drifter(2005, 1, 2, 6, 10.12, 20.12, "55555")])
    s.background(2004, 12, 31, 10)
    s.background(2005, 1, 1, 11)
    s.background(2005, 12, 31, 20)
    st, out = s.month("marine_qc", 2005, 1)
    check(st == 0, out[-500:])
    rows = s.read("out/2005/01/Variables_200501_%-9s_base.csv" % "55555")
    check([round(float(r["OSTIA"])) for r in rows] == [10, 11], "%r" % [r["OSTIA"] for r in rows])
''')
