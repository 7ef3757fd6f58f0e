#!/usr/bin/env python3
# C35: the generated test data against the definition, read back from the files written.
import contextlib, functools, io, json, os, random, re, runpy, shutil, sys, tempfile, traceback, types

sys.dont_write_bytecode = True
sys.path.append("/opt/vp/pyenv/lib/python3.12/site-packages")
REPO = os.environ.get("VF_REPO", "/repo")
DEEP = os.environ.get("VERIF_TIER") == "thorough"
SEED = int(os.environ.get("VERIF_SEED") or 1)
GEN = os.path.join(REPO, "example/edit_distance/data_gen/generate_edit_distance_data.py")
for name in ("fbpcf", "fbpcf.public_tld"):
    m = types.ModuleType(name)
    m.__path__ = [REPO] if name.endswith("tld") else []
    sys.modules[name] = m
sys.modules["fbpcf"].public_tld = sys.modules["fbpcf.public_tld"]

violations, counters, samples, distinct = [], {}, [], set()
evaluations = 0
MAXLEN = 15


def violation(key, detail):
    if len(violations) < 200:
        violations.append(dict(key=key, detail=detail))


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def case(name, f):
    global evaluations
    sys.stderr.write("VF-CURRENT-CASE: %s\n" % name)
    evaluations += 1
    distinct.add(name)
    if len(samples) < 4:
        samples.append(name)
    try:
        f()
    except Exception:
        violation("unexpected-failure", "%s\n%s" % (name, traceback.format_exc()[-1500:]))


def distance(word, guess, delete_cost, insert_cost):
    # cheapest way through the edit graph, settled from the front of both words
    # a letter of the word left unmatched costs insert_cost, one of the guess delete_cost
    @functools.lru_cache(maxsize=None)
    def d(i, j):
        if i == len(word):
            return delete_cost * (len(guess) - j)
        if j == len(guess):
            return insert_cost * (len(word) - i)
        return min(d(i + 1, j + 1) + abs(ord(word[i]) - ord(guess[j])),
                   d(i + 1, j) + insert_cost, d(i, j + 1) + delete_cost)
    return d(0, 0)


def generate(args):
    old, out = sys.argv, io.StringIO()
    sys.argv = [GEN] + args
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(GEN, run_name="__main__")
    finally:
        sys.argv = old
    return out.getvalue()


def lines(path):
    data = open(path, "rb").read()
    if not data.endswith(b"\n") or b"\r" in data:
        violation("malformed-file", "%s does not end its lines with a line break" % os.path.basename(path))
    return data.decode("utf-8").split("\n")[:-1]


def check_files(nm, prefix, words, size, threshold, dc, ic, key="wrong"):
    """all four files of one run, cell by cell"""
    p1, p2, res, par = (lines(prefix + s) for s in ("_player_1_input.csv", "_player_2_input.csv", "_results.csv", "_params.csv"))
    for what, got, want in (("player 1", p1[0], "word,sender_message"), ("player 2", p2[0], "guess"),
                            ("results", res[0], "distance,receiver_message"), ("params", par[0], "threshold,delete_cost,insert_cost")):
        if got != want:
            violation("wrong-header", "%s: %s has %r" % (nm, what, got))
    for what, f in (("player 1", p1), ("player 2", p2), ("results", res)):
        if len(f) != size + 1:
            violation("wrong-row-count", "%s: %s has %d rows of %d" % (nm, what, len(f) - 1, size))
    if par[1:] != ["%d,%d,%d" % (threshold, dc, ic)]:
        violation(key + "-params", "%s: %r for %r" % (nm, par[1:], (threshold, dc, ic)))
    kinds = [0, 0, 0]
    seen = []
    for i, (a, b, c) in enumerate(zip(p1[1:], p2[1:], res[1:])):
        try:
            word, msg = a.split(",")
            guess, = b.split(",")
            dist, told = c.split(",")
            dist = int(dist)
        except ValueError:
            violation("malformed-row", "%s row %d: %r %r %r" % (nm, i, a, b, c))
            continue
        if words is not None:
            for w in (word, msg, guess):
                if w not in words:
                    violation("not-in-dictionary", "%s row %d: %r" % (nm, i, w))
        want = distance(word, guess, dc, ic)
        if dist != want:
            violation(key + "-distance", "%s row %d: %s/%s is %d, not %d (delete %d insert %d)" % (nm, i, word, guess, want, dist, dc, ic))
        k = 0 if want < threshold else 1 if want <= 2 * threshold else 2
        if told != [msg, msg[:len(msg) // 2], ""][k]:
            violation(key + "-message", "%s row %d: distance %d threshold %d: %r of %r" % (nm, i, want, threshold, told, msg))
        kinds[k] += 1
        if want in (threshold, 2 * threshold, threshold - 1, 2 * threshold + 1):
            count("rows_at_a_limit")
        seen.append((word, guess, msg))
    count("rows_compared", len(seen))
    for k, v in zip(("told_all", "told_half", "told_nothing"), kinds):
        count(k, v)
    return seen


def main():
    scratch = tempfile.mkdtemp(prefix="vfgen")
    try:
        run(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(scratch):
    from fbpcf.public_tld.example.edit_distance.data_gen.edit_distance_calculator import EditDistanceCalculator as calc
    rnd = random.Random(SEED)
    shipped = os.path.join(REPO, "example/edit_distance/data_gen/dictionary.txt")

    # the distance alone
    def distances(i):
        def f():
            r = random.Random("%d/%d" % (SEED, i))
            al = r.choice(["ab", "abcxyz", "az", "abcdefghijklmnopqrstuvwxyz", "AZaz09 ", "".join(map(chr, range(33, 127)))])
            for _ in range(60):
                w, g = ("".join(r.choice(al) for _ in range(r.choice([0, 1, 2, 5, r.randrange(16)]))) for _ in range(2))
                if r.random() < .3:
                    g = w[:r.randrange(len(w) + 1)] + g[:2] + w[r.randrange(len(w) + 1):]
                dc, ic = r.choice([0, 1, 2, 5, 30, 100]), r.choice([0, 1, 3, 5, 35, 1000])
                want, got = distance(w, g, dc, ic), calc.edit_distance(w, g, dc, ic)
                if got != want:
                    violation("wrong-distance", "%r %r delete %d insert %d: %r, not %d" % (w, g, dc, ic, got, want))
                count("distances_compared")
        case("distances #%d" % i, f)
    for i in range(60 if not DEEP else 3000):
        distances(i)

    # the generator
    def generation(i):
        def f():
            r = random.Random("%d/g%d" % (SEED, i))
            d = os.path.join(scratch, "g%d" % i)
            os.mkdir(d)
            kind = i % 5
            if kind == 0:
                path = shipped
                raw = open(path).read().splitlines()
            else:
                n = 2500 if i == 31 else r.choice([1, 2, 7, 40])
                al = r.choice(["ab", "abcxyz", "mn", "abcdefghijklmnopqrstuvwxyz"])
                raw = ["".join(r.choice(al) for _ in range(r.randrange(1, MAXLEN + 1))) for _ in range(n)]
                written = [r.choice(["%s", "%s ", " %s", "%s\t"]) % (w.upper() if r.random() < .2 else w) for w in raw]
                path = os.path.join(d, "words.txt")
                with open(path, "w") as o:
                    o.write("\n".join(written) + r.choice(["\n", ""]))
            words = {w.lower().strip() for w in raw}
            size = 3000 if i in (20, 31) else r.choice([0, 1, 2, 50, 300] if i % 4 else [400])
            dc, ic = r.choice([None, 1, 2, 5, 40]), r.choice([None, 1, 3, 5, 40])
            threshold = r.choice([0, 1, 5, 20, 60, 100, 1000])
            prefix = os.path.join(d, r.choice(["x", "edit_distance_%d" % size, "a.b"]))
            args = ["--threshold=%d" % threshold, "--dictionary_path=" + path, "--output_size=%d" % size, "--output_prefix=" + prefix]
            if dc is not None:
                args.append("--delete_cost=%d" % dc)
            if ic is not None:
                args.append("--insert_cost=%d" % ic)
            r.shuffle(args)
            if r.random() < .3:  # leftovers of an earlier, longer run
                for s in ("_player_1_input.csv", "_player_2_input.csv", "_results.csv", "_params.csv"):
                    open(prefix + s, "w").write("old,line\n" * 900)
            before = set(os.listdir(d))
            said = generate(args)
            nm = "generation #%d %s" % (i, args)
            new = set(os.listdir(d)) - before
            b = os.path.basename(prefix)
            if not new <= {b + s for s in ("_player_1_input.csv", "_player_2_input.csv", "_results.csv", "_params.csv")}:
                violation("stray-file", "%s: %s" % (nm, new))
            seen = check_files(nm, prefix, words, size, threshold, 35 if dc is None else dc, 30 if ic is None else ic)
            for s in ("_player_1_input.csv", "_player_2_input.csv", "_results.csv", "_params.csv"):
                if os.path.realpath(prefix + s) not in said:
                    violation("file-not-announced", "%s: %s" % (nm, s))
            # every word is drawn, in every place; rows differ between runs
            if size >= 300 and 1 < len(words) <= 7:
                for col, what in enumerate(("word", "guess", "message")):
                    got = {s[col] for s in seen}
                    # a word that is in the dictionary once in seven lines is missed by 300 draws once in 10^20
                    if got != words:
                        violation("words-never-drawn", "%s: %s %s" % (nm, what, words - got))
                    count("dictionaries_covered")
            if size >= 50 and kind == 0:
                generate(args)
                again = check_files(nm, prefix, words, size, threshold, 35 if dc is None else dc, 30 if ic is None else ic)
                if again == seen:
                    violation("same-data-again", nm)
                for x in range(3):
                    for y in range(x):
                        if [s[x] for s in seen] == [s[y] for s in seen]:
                            violation("columns-not-independent", nm)
                count("repeated_runs")
        case("generation #%d" % i, f)
    for i in range(60 if not DEEP else 1500):
        generation(i)

    # a cost of nothing is a cost too
    def free():
        for dc, ic in ((0, 7), (7, 0), (0, 0)):
            prefix = os.path.join(scratch, "free%d%d" % (dc, ic))
            generate(["--threshold=20", "--dictionary_path=" + shipped, "--output_size=100", "--output_prefix=" + prefix,
                      "--delete_cost=%d" % dc, "--insert_cost=%d" % ic])
            row = lines(prefix + "_params.csv")[1:]
            if row == ["20,%d,%d" % (dc or 35, ic or 30)]:
                # the cost asked for was passed over in favour of the default, consistently in all files
                violation("zero-cost-ignored", "--delete_cost=%d --insert_cost=%d: %s" % (dc, ic, row))
                dc, ic = dc or 35, ic or 30
            check_files("costs %d %d" % (dc, ic), prefix, None, 100, 20, dc, ic)
            count("free_costs")
    case("free operations", free)

    # options that cannot be served are refused, and nothing is written
    def refusals():
        ok = {"--threshold": "10", "--dictionary_path": shipped, "--output_size": "3", "--output_prefix": os.path.join(scratch, "refused")}
        bad = [{k: v for k, v in ok.items() if k != gone} for gone in ok]
        for k, v in (("--threshold", "ten"), ("--output_size", "many"), ("--dictionary_path", os.path.join(scratch, "no such file")),
                     ("--delete_cost", "x"), ("--insert_cost", "1.5"), ("--unknown", "1")):
            bad.append(dict(ok, **{k: v}))
        for b in bad:
            try:
                generate(["%s=%s" % kv for kv in b.items()])
                violation("accepted", "%s" % b)
            except (Exception, SystemExit):
                count("refusals")
            if any(f.startswith("refused") for f in os.listdir(scratch)):
                violation("written-though-refused", "%s" % b)
    case("refusals", refusals)

    # what is shipped fits the applications, which take words of up to 15 ASCII characters
    def data():
        for w in open(shipped).read().split("\n"):
            w = w.strip().lower()
            if not re.fullmatch("[ !#-+--~]{0,%d}" % MAXLEN, w):
                violation("shipped-word-misfit", repr(w))
            count("words_checked")
        prefix = os.path.join(REPO, "example/edit_distance/data_gen/edit_distance_200")
        t, dc, ic = map(int, lines(prefix + "_params.csv")[1].split(","))
        for s in check_files("shipped data", prefix, None, 200, t, dc, ic, key="shipped"):
            for w in s:
                if len(w) > MAXLEN or not w.isascii():
                    violation("shipped-word-misfit", repr(w))
    case("shipped data", data)


complete = False
try:
    main()
    complete = True
finally:
    out = dict(violations=violations, inconclusive=[], evaluations=evaluations, distinct=len(distinct), counters=counters,
               samples=samples, complete=complete)
    with open(os.environ.get("VF_OUT", "/dev/stdout"), "w") as f:
        json.dump(out, f)
