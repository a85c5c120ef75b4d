"""Which programs and configurations decide which property, and which models belong to it."""
def jobs(*spec):
    """spec: (count, variant, families)"""
    return [(v, f.split()) for n, v, f in spec for _ in range(n)]
PLAN = {
 "C01": {"jobs": jobs((4, "6", "fj drop frames mix deep ext"), (1, "6", "big"), (1, "6-noleap", "fj deep drop"), (2, "14", "fj drop frames frames2 mix ext"))},
 "C02": {"jobs": jobs((2, "6", "args"), (1, "6-cpp", "args"), (2, "14", "args"), (1, "14-cpp", "args"), (1, "6-gen", "args"), (1, "14-gen", "args"))},
 "C03": {"jobs": jobs((4, "6", "hb hb args@hb frames@hb ext@hb"), (2, "6", "fj args deep"), (2, "14", "hb args@hb frames@hb fj"))},
 "C04": {"jobs": jobs((4, "6", "drop drop@hb"), (1, "6", "big"), (3, "14", "drop drop@hb"))},
 "C05": {"jobs": jobs((5, "6", "ext exc sus ext@hb"), (3, "14", "ext exc sus ext@hb"))},
 "C06": {"jobs": jobs((5, "6", "exc exc exc ext"), (3, "14", "exc"))},
 "C07": {"jobs": jobs((5, "6", "frames frames2 frames2@hb frames@hb"), (3, "14", "frames frames2"))},
 "C08": {"jobs": jobs((4, "6", "frames frames2 bar args frames@hb"), (1, "6", "many"), (3, "14", "frames frames2 bar args"))},
 "C09": {"jobs": jobs((5, "6", "frames frames2 ext ident"), (3, "14", "frames frames2 ext"))},
 "C10": {"jobs": jobs((5, "6", "bar bar@hb"), (3, "14", "bar bar@hb"))},
 "C11": {"jobs": jobs((5, "6", "sus sus sus ext"), (3, "14", "sus sus ext"))},
 "C12": {"jobs": jobs((2, "6", "life ident"), (1, "6", "many"), (2, "6-mmap", "life"), (2, "14", "life"), (1, "14-mmap", "life"))},
 "C13": {"jobs": jobs((3, "6", "cap cap reent life"), (1, "6", "big"), (1, "6-mmap", "cap life"), (2, "14", "cap cap reent"), (1, "14", "big"))},
 "C14": {"jobs": jobs((3, "6", "mix frames2 ext sus exc frames"), (1, "6", "fj deep bar drop args life"), (1, "6-noleap", "fj deep frames2 mix drop"), (2, "14", "mix frames2 ext sus exc frames"), (1, "14", "fj deep bar drop args life"))},
 "C15": {"jobs": jobs((4, "6", "share"), (4, "14", "share"))},
 "C16": {"jobs": jobs((5, "6", "solo"), (3, "14", "solo"))},
 "C17": {"jobs": jobs((4, "6", "ident ident args life"), (1, "6", "many"), (1, "14", "many"), (2, "14", "ident ident args life"))},
 "C18": {"jobs": jobs((3, "6", "reent reent drop frames cap"), (1, "6", "big"), (1, "6-mmap", "reent"), (2, "14", "reent reent drop frames cap"), (1, "14", "big"))},
 "C19": {"jobs": jobs((2, "6-tasks-steals", "stat stat stat mix"), (1, "6-tasks-steals", "big"), (1, "6-tasks-steals-splits-pie", "stat life"), (1, "6-tasks", "stat"), (1, "14-steals", "stat"), (1, "14-tasks-steals", "stat frames2"), (1, "6-pie", "stat life"))},
 "C20": {"jobs": jobs((4, "6", "insp insp@hb"), (1, "6-cpp", "insp"), (2, "14", "insp insp@hb"), (1, "14-cpp", "insp"))},
}
