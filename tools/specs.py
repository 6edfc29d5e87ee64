"""What each property's check runs. A spec lists jobs; a job is one seeded plan."""
import random


def seeds(base, n, salt):
    """Seeds of one check: a pure function of VERIF_SEED."""
    r = random.Random("%d/%s" % (base, salt))
    return [r.randrange(1, 1 << 40) for _ in range(n)]


ENVS = ["swarm", "faulty", "swarm", "faulty", "calm"]


def programs(salt, mix, target="vsim", envs=ENVS, only=None, **extra):
    """Round robin over weighted scenarios and timing environments."""
    def make(base, n):
        out = []
        wheel = [s for s, w in mix for _ in range(w)]
        for i, sd in enumerate(seeds(base, n, salt)):
            sc = wheel[i % len(wheel)]
            plan = dict(scenario=sc, seed=sd, env=envs[(i // len(wheel)) % len(envs)], **extra)
            t = target if isinstance(target, str) else target[i % len(target)]
            out.append(dict(target=t, plan=plan, only=only, label=sc + "/" + plan["env"] + ("" if t == "vsim" else "/" + t)))
        return out
    return make


def twins(salt, mix, targets=("vsim",)):
    base_make = programs(salt, mix)

    def make(base, n):
        out = []
        for i, j in enumerate(base_make(base, n)):
            p = j["plan"]
            j.update(judge="twin", target=targets[i % len(targets)],
                     env2={"MALLOC_PERTURB_": str(1 + (i * 37) % 250), "VERIF_PAD": "x" * (17 + 331 * (i % 12)),
                           "VERIF_FILL": str(1 + (i * 53) % 250), "VERIF_CLOCK": str(1000003 * (1 + i % 7))})
            if i % 12 == 5:
                p.update(mode="fast", fast=50 + 37 * (i % 40), opts="nodev")
            elif i % 12 == 8:
                p.update(mode="ckpt", at=70 + 41 * (i % 40), interval=300, opts="nodev")
            elif i % 12 == 10:
                p.update(opts="nodiff")
            elif i % 12 == 2:
                p.update(limit=100 + 61 * (i % 30))
            j["label"] += "/" + p.get("mode", "run")
            out.append(j)
        return out
    return make


INJECT = ["gpr", "csr", "pc", "inst", "sdata", "saddr", "nostore", "pf_l", "pf_s", "pf_i", "rd", "rd", "rd", "trap", "brpc", "csr"]


def injections(salt):
    def make(base, n):
        r = random.Random("%d/%s/inj" % (base, salt))
        out = []
        for i, sd in enumerate(seeds(base, n, salt)):
            k = INJECT[i % len(INJECT)]
            sc = ["mix", "mem", "trap", "core", "amo", "irq"][(i // len(INJECT)) % 6]
            plan = dict(scenario=sc, seed=sd, env=ENVS[i % 5], nitems=30,
                        inject="%s:%d:%d:%d" % (k, 1 + r.randrange(400), r.randrange(1000), r.randrange(1000)))
            out.append(dict(target="vsim", plan=plan, label="inject " + k))
        return out
    return make


HAND = [("mix", 3), ("vm", 2), ("trap", 2), ("amo", 2), ("mmio", 2), ("irq", 1), ("smc", 1), ("mem", 1), ("fp", 1)]


def handoffs(salt):
    """Sequential execution first, the detailed machine from a seeded point on."""
    inner = programs(salt, HAND, opts="nodev", mode="fast")

    def make(base, n):
        r = random.Random("%d/%s/at" % (base, salt))
        out = inner(base, n)
        for i, j in enumerate(out):
            if j["plan"]["scenario"] == "amo" and i % 3:
                j["plan"]["opts"] += " lr"
            j["plan"]["fast"] = 1 + r.randrange([40, 400, 2000, 6000][i % 4])
            if i % 10 == 7:
                j["plan"]["opts"] = "nodev end"
        return out
    return make


DAMAGE_CKPT = ["empty", "short_header", "short_state", "short_ram", "short_devices", "short_last", "bad_magic", "bad_version", "bad_ram_size",
               "bad_range_count", "bad_device_base", "bad_device_size", "missing"]
DAMAGE_RUN = ["missing", "too_big", "bad_mode", "bad_limit_zero", "bad_limit_negative", "bad_limit_text", "bad_fast_text", "bad_fast_none",
              "bad_fast_zero", "bad_warm_negative", "bad_warm_text", "bad_option", "bad_missing_value", "no_file", "help"]


def snapshots(salt, damage=True, report=False):
    inner = programs(salt, HAND, mode="ckpt")

    def make(base, n):
        r = random.Random("%d/%s/at" % (base, salt))
        out = inner(base, n)
        for i, j in enumerate(out):
            p = j["plan"]
            p["at"] = r.randrange([60, 800, 3000][i % 3])
            p["interval"] = r.choice([0, 1, 7, 100, 400, 1500, 4000])
            p["opts"] = "nodev" + (" gz" if i % 4 == 1 else "") + (" lr" if p["scenario"] == "amo" else "") + (" report" if report else "")
            if p["interval"] == 0:
                p["warm"], p["limit"] = r.choice([0, None]), 1 + r.randrange(900)
            else:
                p["warm"] = r.choice([None, 0, r.randrange(p["interval"] + 1)])
                p["limit"] = r.choice([None, 1 + r.randrange(900), 1 + r.randrange(40)])
            if damage and i % 4 == 3:
                p["damage"] = DAMAGE_CKPT[(i // 4) % len(DAMAGE_CKPT)]
                j["label"] = "damaged " + p["damage"]
            elif damage and i % 16 == 2 and p["interval"]:
                p["warm"], p["damage"] = p["interval"] + 1 + r.choice([0, 0, r.randrange(50)]), "warm_too_long"
                j["label"] = "damaged warm_too_long"
            elif damage and i % 16 == 6 and not p["interval"]:
                p["limit"], p["damage"] = None, "no_limit"
                j["label"] = "damaged no_limit"
        return out
    return make


def control(salt):
    """Stopping, interrupting, refusing, unchecked and sequential runs."""
    inner = programs(salt, [("mix", 3), ("mem", 1), ("irq", 1), ("mmio", 1), ("vm", 1), ("trap", 1)])

    def make(base, n):
        r = random.Random("%d/%s/ctl" % (base, salt))
        out = inner(base, n)
        for i, j in enumerate(out):
            p, k = j["plan"], i % 6
            if k < 2:
                p["limit"] = 1 + r.randrange([30, 1500, 4000][r.randrange(3)])
                if i % 5 == 0:
                    p["opts"] = "nodev end"
            elif k == 2:
                p["sigint"] = 1 + r.randrange(5000)
            elif k == 3:
                p["damage"] = DAMAGE_RUN[(i // 6) % len(DAMAGE_RUN)]
                p["nitems"] = 4
            elif k == 4:
                j["judge"] = "unchecked"
            else:
                p["mode"], p["opts"] = "ref", "nodev"
                p["limit"] = r.choice([None, 1 + r.randrange(1500)])
                if i % 4 == 1:
                    p["opts"] = "nodev end"
            j["label"] = ["limit", "limit", "interrupt", "refuse " + str(p.get("damage")), "unchecked", "sequential"][k]
        return out
    return make


def reports(salt):
    inner = programs(salt, [("mix", 3), ("branch", 2), ("mem", 2), ("irq", 1), ("trap", 1), ("amo", 1), ("vm", 1), ("mmio", 1)])
    snaps = snapshots(salt + "/snap", damage=False, report=True)

    def make(base, n):
        r = random.Random("%d/%s/rep" % (base, salt))
        out = inner(base, n - n // 8)
        for i, j in enumerate(out):
            j["plan"]["opts"] = "report"
            if i % 4 == 1:
                j["plan"]["limit"] = 1 + r.randrange(4000)
            elif i % 4 == 2:
                j["plan"]["sigint"] = 1 + r.randrange(4000)
            j["only"] = ("report",)
        return out + [dict(j, only=("report",)) for j in snaps(base, n // 8)]
    return make


CONFIGS = ("vmedium", "vlarge", "vdefault", "vassert")

RULE = ("one run = one seeded guest program (weighted items of the scenario) under one seeded bus-timing profile or explicit fault list, in a fresh "
        "process, every retired instruction compared with the architectural model; non-trivial: %s; distinct by retired-history and timing hashes")


def has(*names):
    return lambda d: all(any(k.startswith(n) and v > 0 for k, v in d.get("cnt", {}).items()) for n in names)


def spec(jobs, quick, thorough, rule, nontrivial=None, targets=("vsim",), **kw):
    s = dict(jobs=jobs, quick=quick, thorough=thorough, rule=RULE % rule, targets=list(targets))
    if nontrivial:
        s["nontrivial"] = nontrivial
    s.update(kw)
    return s


SPECS = {
    "C01": spec(programs("C01", [("core", 2), ("branch", 2), ("mix", 3)]), 650, 6000,
                "retired branches and loads", has("branches", "loads")),
    "C02": spec(programs("C02", [("mem", 5), ("mix", 1)]), 650, 6000,
                "retired stores and at least one line written back or refilled", has("stores", "loads")),
    "C03": spec(programs("C03", [("trap", 4), ("vm", 1)]), 650, 6000, "a retired trap and a trap return", has("trap_", "xrets")),
    "C04": spec(programs("C04", [("irq", 5), ("mix", 1)]), 650, 6000, "an interrupt was taken", has("irq_")),
    "C05": spec(programs("C05", [("vm", 1)]), 650, 6000, "instructions retired under translation", has("commits_paged")),
    "C06": spec(programs("C06", [("amo", 1)]), 650, 6000, "retired atomics and store-conditionals", has("amos")),
    "C07": spec(programs("C07", [("mmio", 4), ("irq", 1)]), 650, 6000, "device loads or stores retired", has("mmio_")),
    "C08": spec(programs("C08", [("smc", 1)]), 650, 6000, "instruction fences retired", has("fenceis")),
    "C09": spec(programs("C09", [("mix", 1), ("mem", 1), ("vm", 1), ("irq", 1), ("mmio", 1), ("smc", 1)], envs=["faulty"],
                         only=("stall", "timeout", "hang", "aborted", "crash", "early_end", "after_end", "irq_lost")), 650, 6000,
                "a fault fired", lambda d: sum(d.get("fired", {}).values()) > 0),
    "C10": spec(twins("C10", [("mix", 1), ("mem", 1), ("vm", 1), ("irq", 1), ("mmio", 1), ("smc", 1), ("core", 1), ("amo", 1)]), 160, 1700,
                "both runs retired instructions"),
    "C11": spec(programs("C11", [("fp", 4), ("mix", 1)]), 520, 5000, "floating-point instructions retired", has("fp_ops")),
    "C12": spec(injections("C12"), 900, 8000, "a divergence was injected", has("injected"), level="fault_enumeration"),
    "C18": spec(programs("C18", [("core", 1), ("mem", 1), ("amo", 2), ("trap", 3), ("vm", 3), ("irq", 3), ("fp", 2), ("smc", 1), ("mix", 2), ("mmio", 2),
                                ("branch", 1)], target="vref", envs=["calm"]), 15000, 150000,
                "instructions of the program retired", targets=("vref",), real=["the sequential executor"],
                stub=["clock (seeded advance per instruction)", "front ends that drive the executor"],
                assumptions=["the independent architectural model is right for the generated programs", "sampled, not exhaustive: only the listed seeds were run"]),
    "C13": spec(handoffs("C13"), 200, 1800, "sequential steps before the switch and instructions of the detailed machine after it",
                lambda d: d.get("cnt", {}).get("ref_steps", 0) > 0 and d.get("commits", 0) > 0, heavy=True),
    "C14": spec(snapshots("C14"), 200, 1800, "a snapshot was restored and run on, or a damaged one refused",
                lambda d: d.get("commits", 0) > 0 or any(k.startswith("refused") for k in d.get("cnt", {})), heavy=True, level="fault_enumeration"),
    "C16": spec(control("C16"), 540, 5000, "the run was limited, interrupted, refused, run unchecked or run sequentially", lambda d: True),
    "C17": spec(reports("C17"), 520, 5000, "a performance report was printed and compared", has("reports"), heavy=False),
    "C19": spec(programs("C19", [("mem", 3), ("dma", 1), ("vm", 1), ("mmio", 2), ("smc", 1), ("amo", 1), ("mix", 2)], opts="bus", only=("bus",)), 650, 6000,
                "data-side reads and write-backs accepted by the bus", lambda d: all(d.get("txns", [0] * 5)[p] > 0 for p in (1, 3))),
    "C20": spec(programs("C20", [("mix", 2), ("mem", 1), ("vm", 1), ("irq", 1), ("amo", 1), ("branch", 1), ("mmio", 1), ("trap", 1)], target=CONFIGS), 450, 4500,
                "instructions of the program retired", targets=CONFIGS),
    "C21": spec(programs("C21", [("learn", 1)], nitems=6, opts="report learn", only=("learn",)), 300, 2500,
                "several hundred regular branches were counted", has("loops_learnt")),
    "C22": spec(programs("C22", [("learn", 2), ("mem", 3), ("core", 2), ("mix", 2), ("amo", 1), ("pace", 1), ("smc", 1)], opts="keep", only=("refetch",)), 520, 5000,
                "lines were read by both caches", has("code_lines", "data_lines")),
    "C23": spec(programs("C23", [("pace", 1)], nitems=10, envs=["slow", "swarm", "faulty", "calm"], opts="pace", only=("pace",)), 375, 4000,
                "a warm loop was timed", has("loops_timed")),
    "C15": spec(programs("C15", [("dma", 2), ("mmio", 1), ("irq", 1)]), 650, 6000, "device accesses retired", has("mmio_")),
}
