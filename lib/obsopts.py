"""Random documented observer options."""


def options(rng, observer, folder="R"):
    o = ["result_folder: %s" % folder]
    add = lambda p, t: o.append(t) if rng.random() < p else None
    add(0.3, "algorithm_name: ALG%d" % rng.randint(1, 9))
    add(0.3, 'algorithm_info: "some info %d"' % rng.randint(1, 99))
    add(0.3, "number_target_triggers: %d" % rng.choice([1, 2, 5, 10, 100, 333]))
    add(0.3, "log_target_precision: 1e-%d" % rng.randint(1, 10))
    add(0.3, "lin_target_precision: 1e-%d" % rng.randint(0, 6))
    add(0.3, "number_evaluation_triggers: %d" % rng.choice([1, 5, 20, 50]))
    add(0.3, 'base_evaluation_triggers: "%s"' % rng.choice(["1,2,5", "1", "3,7", "1,2,3,4,5,6,7,8,9"]))
    add(0.3, "precision_x: %d" % rng.randint(1, 16))
    add(0.3, "precision_f: %d" % rng.randint(1, 16))
    add(0.3, "precision_g: %d" % rng.randint(1, 16))
    add(0.3, "log_discrete_as_int: %d" % rng.randint(0, 1))
    if observer == "bbob-biobj":
        add(0.6, "log_nondominated: %s" % rng.choice(["none", "final", "all"]))
        add(0.6, "log_decision_variables: %s" % rng.choice(["none", "all", "low_dim"]))
        add(0.4, "compute_indicators: %d" % rng.randint(0, 1))
        add(0.3, "produce_all_data: %d" % rng.randint(0, 1))
    if observer == "rw":
        add(0.6, "log_variables: %s" % rng.choice(["none", "all", "low_dim"]))
        add(0.6, "log_constraints: %s" % rng.choice(["none", "all", "low_dim"]))
        add(0.3, "log_time: %d" % rng.randint(0, 1))
        add(0.5, "log_only_better: %d" % rng.randint(0, 1))
    head, tail = o[:1], o[1:]
    rng.shuffle(tail)
    o = head + tail
    if rng.random() < 0.3:
        rng.shuffle(o)
    return " ".join(o)
