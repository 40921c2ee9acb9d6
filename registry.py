"""single source for properties.jsonl, MANIFEST.json and the evidence texts (tool/gen.py writes the first two)"""
TESTS = 'The 8 gtest cases run tiny shear set-ups serially and compare Newton iteration counts; '
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, rule=None, note=None, na=None, assumptions=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, rule=rule, note=note, na=na,
                      level='other', assumptions=list(assumptions)))


exec(open(__file__.replace('registry.py', 'props.py')).read())
BY_ID = {p['id']: p for p in PROPS}
