"""Turns what TLC printed about the transitions of BTreeAlgMC / BTreeAlgTall into a case file."""
import heapq
import json
import random
import re

CODE = {"push": 0, "prepend": 1, "ins": 2, "insm": 3, "bulk": 4, "rm": 5, "uplgone": 6, "upladd": 7,
        "upsgone": 8, "upsadd": 9, "drain": 10, "upd": 11, "uplr": 12}
AT = re.compile(r'<<\s*"@",\s')


def transitions(text):
    """(shape, (op, args...), shape') for every transition TLC printed"""
    seen = {}
    pos = 0
    while True:
        m = AT.search(text, pos)
        if not m:
            return seen
        k = m.start()
        depth, j = 0, k
        while True:
            a = text.find("<<", j)
            b = text.find(">>", j)
            if a != -1 and a < b:
                depth += 1
                j = a + 2
            else:
                depth -= 1
                j = b + 2
            if depth == 0:
                break
        v = json.loads(text[k:j].replace("<<", "[").replace(">>", "]"))
        pos = j
        op = tuple(v[2])
        if op[0] == "uplr" and op[3] != 0 and op[3] < op[1]:
            # the same call, the parts inserted in the other order
            op = ("uplr", op[3], op[4], op[1], op[2])
        key = (json.dumps(v[1]), op)
        seen.setdefault(key, set()).add(json.dumps(v[3]))


def levels(s):
    return ";".join(",".join(str(x) for x in l) for l in json.loads(s))


# how awkward an operation is as a step of the way to a shape
def cost(op):
    c = {"bulk": 3, "push": 4, "rm": 4, "ins": 4, "prepend": 4, "insm": 5}.get(op[0], 8)
    if op[0] in ("ins", "insm") and op[2] == 1:
        c += 20
    if op[0] in ("drain", "upd") and 1 in (op[-3], op[-1]):
        c += 20
    if op[0] in ("upladd", "upsadd", "uplr"):
        c += 20
    return c


def write(trans, path, ops, most, seed):
    """ops: the operations wanted as transitions (None: all); most: at most so many of them"""
    graph = {}
    for (a, op), to in trans.items():
        for b in to:
            if a != b and len(to) == 1:
                graph.setdefault(a, []).append((cost(op), op, b))
    start = "[[0]]"
    dist, how = {start: 0}, {}
    heap = [(0, start)]
    done = []
    fin = set()
    while heap:
        d, a = heapq.heappop(heap)
        if a in fin:
            continue
        fin.add(a)
        done.append(a)
        for c, op, b in graph.get(a, ()):
            if d + c < dist.get(b, 1 << 30):
                dist[b] = d + c
                how[b] = (a, op)
                heapq.heappush(heap, (d + c, b))
    index = {s: i for i, s in enumerate(done)}
    sources = {a for a, _ in trans}
    # shapes that are only the end of a transition are not built
    keep = set()
    for s in done:
        if s in sources or most == 0:
            while s not in keep:
                keep.add(s)
                if s == start:
                    break
                s = how[s][0]
    done = [s for s in done if s in keep]
    index = {s: i for i, s in enumerate(done)}
    out = []
    for s in done:
        if s == start:
            out.append("S 0 0 0 | 0")
        else:
            a, op = how[s]
            out.append("S %d %d %s | %s" % (index[s], index[a], enc(op), levels(s)))
    todo = [(a, op, to) for (a, op), to in trans.items() if (ops is None or op[0] in ops) and a in index]
    todo.sort(key=lambda x: (index[x[0]], x[1]))
    total = len(todo)
    if total > most:
        todo = [todo[i] for i in sorted(random.Random(seed).sample(range(total), most))]
    n = 0
    for a, op, to in todo:
        to = " | ".join(levels(b) for b in sorted(to))
        out.append("T %d %s | %s" % (index[a], enc(op), to))
        n += 1
        if op[0] == "bulk":
            out.append("T %d %s 1 | %s" % (index[a], enc(op), to))
            n += 1
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return {"shapes": len(done), "transitions": n, "of": total, "cost": n + 10 * len(done)}


def tour(trans, path, ops, most, seed):
    """Histories of a map that make every transition of OrdAlg, one after the other."""
    rng = random.Random(seed)
    graph = {}
    for (a, op), to in trans.items():
        graph.setdefault(a, []).append((op, min(to)))
    todo = {(a, op) for a in graph for op, _ in graph[a]}
    total = len(todo)
    if total > most:
        todo = set(rng.sample(sorted(todo), most))
    want = {}
    for a, op in todo:
        want.setdefault(a, []).append(op)
    for a in sorted(want):
        want[a].sort()
        rng.shuffle(want[a])
    nexts = {a: dict(v) for a, v in graph.items()}
    lines, n = [], 0
    while any(want.values()):
        at, keys, line = "[[0]]", [], []
        while len(line) < 600:
            if want.get(at):
                steps = [want[at].pop()]
            else:   # the shortest way to a shape with something left
                prev, queue, goal = {at: None}, [at], None
                for a in queue:
                    if want.get(a):
                        goal = a
                        break
                    for op, b in graph.get(a, ()):
                        if b not in prev:
                            prev[b] = (a, op)
                            queue.append(b)
                if goal is None:
                    break
                steps = []
                while prev[goal]:
                    goal, op = prev[goal]
                    steps.append(op)
                steps.reverse()
            stuck = False
            for op in steps:
                k, g = op[1], op[1] // 2
                if k % 2 == 0:
                    key = keys[g - 1]
                else:
                    if not keys:
                        key = rng.randint(-1000, 1000)
                    elif g == 0:
                        key = keys[0] - rng.randint(1, 40000)
                    elif g == len(keys):
                        key = keys[-1] + rng.randint(1, 40000)
                    elif keys[g] - keys[g - 1] < 2:
                        stuck = True
                        break
                    else:
                        lo, hi = keys[g - 1], keys[g]
                        w = max(1, (hi - lo) // 3)
                        key = min(hi - 1, max(lo + 1, (lo + hi) // 2 + rng.randint(-w, w)))
                line.append((0 if op[0] == "put" else 1, key, rng.randint(0, 999)))
                if op[0] == "put" and k % 2:
                    keys.insert(g, key)
                elif op[0] == "del" and k % 2 == 0:
                    keys.pop(g - 1)
                if op in want.get(at, ()):
                    want[at].remove(op)
                at = nexts[at][op]
            if stuck:
                break
        lines.append(" ".join("%d %d %d" % x for x in line))
        n += len(line)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return {"histories": len(lines), "calls": n, "transitions": min(total, most), "of": total, "cost": n // 3}


def lines(trans, path, ops, most, seed):
    """Cases that are lists of numbers already."""
    todo = sorted(trans)
    total = len(todo)
    if total > most:
        todo = sorted(random.Random(seed).sample(todo, most))
    with open(path, "w") as f:
        f.writelines(" ".join(str(x) for x in c) + "\n" for c in todo)
    return {"cases": len(todo), "of": total, "cost": len(todo) // 2}


def numbers(text):
    return {tuple(int(x) for x in m.group(1).split(","))
            for m in re.finditer(r'<<\s*"@",([-\d,\s]+)>>', text)}


READ = {"tree": transitions, "map": transitions, "slice": numbers, "rope": numbers}
WRITE = {"tree": write, "map": tour, "slice": lines, "rope": lines}


def enc(op):
    return " ".join([str(CODE[op[0]])] + [str(x) for x in op[1:]])


if __name__ == "__main__":
    import sys
    t = transitions(open(sys.argv[1]).read())
    print(write(t, sys.argv[2], None if len(sys.argv) < 4 else sys.argv[3].split(","), int(sys.argv[4]) if len(sys.argv) > 4 else 10**9, 1))
