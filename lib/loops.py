"""The loop rule's side condition, checked of the compiled loop.

In a `l_*` harness `slice::Iter::next` is replaced by `loop_rule` (harness/src/ind.rs), which goes to an
arbitrary iteration under the loop invariant.  That is sound when nothing is carried from one
iteration to the next but the iterator and what the invariant speaks of (the serializer, through the
reference that is the loop's only way to memory).  Of the goto program CBMC is given, for each loop
around a replaced call, this checks:
  - the call is in exactly one natural loop, and the iterator is used by that call only;
  - no other local assigned in the loop (or whose address is taken there) is live at the loop's head;
  - the loop writes through no pointer and to no global, unless allowed for that harness;
  - what the loop passes to its calls comes from the element, or from one and the same loop-invariant
    variable (the serializer), so that the calls can carry nothing else either.
"""
import re

HEAD = re.compile(r"^(\S.*?) /\* (\S+) \*/$")


def functions(text):
    """name -> (pretty, [(label, instruction)])"""
    out = {}
    cur = None
    for line in text.splitlines():
        m = HEAD.match(line)
        if m:
            cur = []
            out[m.group(2)] = (m.group(1), cur)
            continue
        if cur is None or line.lstrip().startswith("//") or not line.strip():
            continue
        if line.startswith("^^^"):
            cur = None
            continue
        m = re.match(r"^\s*(?:(\d+): )?(\S.*)$", line)
        if m:
            cur.append((m.group(1), m.group(2).strip()))
    return out


ITER_NEXT = re.compile(r"^<(?:std|core)::slice::Iter<'_, (.*)> as std::iter::Iterator>::next$")
RANGE_NEXT = re.compile(r"<impl std::iter::Iterator for std::ops::Range<usize>>::next$|^<std::ops::Range<usize> as std::iter::Iterator>::next$")
RULE = re.compile(r"(?:^|::)(loop_rule\w*)::<(.*)>$")


def replacements(fs):
    """[(next, rule, type)]"""
    rules, nexts = {}, {}
    for name, (pretty, _) in fs.items():
        m = RULE.search(pretty)
        if m:
            rules[m.group(2)] = name
        m = ITER_NEXT.match(pretty)
        if m:
            nexts[m.group(1)] = name
        if re.search(r"(?:^|::)loop_rule_range$", pretty):
            rules["index"] = name
        if RANGE_NEXT.search(pretty):
            nexts["index"] = name
    return [(nexts[t], rules[t], t) for t in rules if t in nexts], [t for t in rules if t not in nexts]


DROP = re.compile(r"^(?:std|core)::ptr::drop_glue::<((?:std|alloc)::vec::Vec<.*>)>$")
NO_DROP = re.compile(r"(?:^|::)no_drop::<(.*)>$")


def drops(fs):
    """[(drop glue, contract)] of vectors"""
    glue, none = {}, {}
    for name, (pretty, _) in fs.items():
        m = DROP.match(pretty)
        if m:
            glue[m.group(1)] = name
        m = NO_DROP.search(pretty)
        if m:
            none[m.group(1)] = name
    return [(glue[t], none[t]) for t in none if t in glue]


def _succ(ins):
    labels = {l: i for i, (l, _) in enumerate(ins) if l}
    succ = []
    for i, (_, t) in enumerate(ins):
        m = re.match(r"^(?:IF (.*) THEN )?GOTO (\S+)$", t)
        if m:
            s = [labels[x.strip()] for x in m.group(2).split(",")]
            if m.group(1):
                s.append(i + 1)
        elif t.startswith("END_FUNCTION") or t.startswith("ASSUME false"):
            s = []
        else:
            s = [i + 1]
        succ.append([x for x in s if x < len(ins)])
    return succ


def _dominators(succ):
    n = len(succ)
    pred = [[] for _ in range(n)]
    for i, s in enumerate(succ):
        for j in s:
            pred[j].append(i)
    reach, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += succ[i]
    dom = {i: set(reach) for i in reach}
    dom[0] = {0}
    changed = True
    while changed:
        changed = False
        for i in sorted(reach):
            if i == 0:
                continue
            ps = [dom[p] for p in pred[i] if p in reach]
            d = set.intersection(*ps) | {i}
            if d != dom[i]:
                dom[i] = d
                changed = True
    return dom, pred, reach


def check_function(name, ins, callee, allow_writes=False, index=False):
    """None if the side condition holds of every loop around a call of `callee`, else why not"""
    succ = _succ(ins)
    dom, pred, reach = _dominators(succ)
    calls = [i for i, (_, t) in enumerate(ins) if t.startswith("CALL ") and callee + "(" in t and i in reach]
    var = re.compile(re.escape(name) + r"::[^\s,()\[\].=;*&}]+")

    def clean(t):
        # the marker of dead locals is no use of them
        return "" if t.startswith("ASSIGN __CPROVER_dead_object") else t

    def strip_field(v):
        return v.split(".")[0]

    def names(t):
        return {strip_field(v) for v in var.findall(t)}

    # definitions and uses, instruction by instruction
    defs, uses, partial, addr = [], [], [], []
    for _, t0 in ins:
        t = clean(t0)
        d, u, p = set(), set(), set()
        m = re.match(r"^(ASSIGN|CALL) (\S+) := (.*)$", t, re.S)
        if m:
            lhs, rhs = m.group(2), m.group(3)
            if var.fullmatch(lhs):
                d = {lhs}
            else:
                p = names(lhs)
                u |= p
            u |= names(rhs)
        elif t.startswith(("DECL ", "DEAD ")):
            d = names(t)
        else:
            u |= names(t)
        defs.append(d)
        uses.append(u)
        partial.append(p)
        addr.append({strip_field(v) for a in re.findall(r"address_of\((?![(*])([^)]*)\)", t) for v in var.findall(a)})
    live_in = [set() for _ in ins]
    changed = True
    while changed:
        changed = False
        for i in range(len(ins) - 1, -1, -1):
            out = set().union(*[live_in[j] for j in succ[i]]) if succ[i] else set()
            new = uses[i] | (out - defs[i])
            if new != live_in[i]:
                live_in[i] = new
                changed = True

    for c in calls:
        loops = []
        for i in reach:
            for h in succ[i]:
                if h in dom[i]:
                    body, todo = {h}, [i]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo += [p for p in pred[x] if p in reach]
                    loops.append((h, body))
        loops = [l for l in loops if c in l[1]]
        heads = {h for h, _ in loops}
        if len(heads) != 1:
            return f"call is in {len(heads)} loops of {name}"
        head = heads.pop()
        body = set().union(*[b for _, b in loops])
        # the iterator
        m = re.search(re.escape(callee) + r"\((\S+)\)$", ins[c][1])
        if not m:
            return "unexpected form of the call"
        arg = m.group(1)
        d = [i for i in body if arg in defs[i] and not ins[i][1].startswith(("DECL", "DEAD"))]
        mm = re.match(r"^ASSIGN \S+ := address_of\((\S+)\)$", ins[d[0]][1]) if len(d) == 1 else None
        if not mm:
            return f"iterator of the loop not found in {name}"
        it = mm.group(1)
        for i in body:
            if i != d[0] and it in uses[i] | defs[i] and not ins[i][1].startswith(("DECL", "DEAD")):
                return f"the iterator is used otherwise in {name}: {ins[i][1][:120]}"
            if i != c and arg in uses[i]:
                return f"the iterator is used otherwise in {name}: {ins[i][1][:120]}"
        for i in body:
            t = clean(ins[i][1])
            assigned = (defs[i] if not t.startswith(("DECL", "DEAD")) else set()) | partial[i]
            taken = addr[i]
            if t.startswith("ASSIGN") and not re.match(r"^ASSIGN \S+ := address_of\(", t):
                # read through the address, as for discriminants
                if re.search(r"\*\(?(?:cast\()?address_of\(", t):
                    taken = set()
            for v in (assigned | taken) - {it}:
                if v in live_in[head]:
                    return f"{v.split('::', 1)[1]} is carried between iterations in {name}"
            m = re.match(r"^(ASSIGN|CALL) (\S+) := ", t)
            if m and not var.match(m.group(2)):
                lhs = m.group(2)
                if not (allow_writes and lhs.startswith("*")):
                    return f"the loop writes to {lhs[:80]} in {name}"
        # where the arguments of calls come from
        res = re.match(r"^CALL (\S+) := ", ins[c][1]).group(1)
        inside = {}
        for i in body:
            if not ins[i][1].startswith(("DECL", "DEAD")):
                for v in defs[i]:
                    inside.setdefault(v, []).append(i)

        def roots(v, seen):
            if v == res or v in seen:
                return set()
            if v not in inside:
                return {v}
            r = set()
            for i in inside[v]:
                for u in uses[i]:
                    r |= roots(u, seen | {v})
            return r

        # integers carry nothing
        scalar = set()
        for i, (_, t) in enumerate(ins):
            m = re.match(r"^DECL (\S+) : (?:unsignedbv|signedbv|c_bool)\[\d+\]$", t)
            if m:
                scalar.add(m.group(1))
        r = set()
        for i in body:
            if i != c and ins[i][1].startswith("CALL "):
                for v in uses[i]:
                    r |= roots(v, set())
        r -= scalar
        if index:
            # the array whose elements are counted: a shared reference
            r = {x for x in r if not x.endswith("::self")}
        if len(r) > 1:
            return f"the loop's calls share {', '.join(sorted(x.split('::', 1)[1] for x in r))} in {name}"
    return None


def side_condition(fs, pairs, allow_writes=False):
    for nxt, rule, t in pairs:
        for name, (pretty, ins) in fs.items():
            if any(x.startswith("CALL ") and nxt + "(" in x for _, x in ins):
                why = check_function(name, ins, nxt, allow_writes, t == "index")
                if why:
                    return why
    return None
