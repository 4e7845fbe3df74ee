"""Reference definitions shared by several properties."""


def _ks(f, names):
    return tuple(f[n] for n in names)


CMP_FIELDS = {
    "gdb": ["function_name", "function_type", "source_file", "source_line", "library_name"],
    "core": ["build_id", "build_id_offset", "function_name", "file_name", "fingerprint"],
    "java": ["name", "class_path", "file_name", "is_native", "file_line"],
    "koops": ["address", "reliable", "function_name", "function_offset", "function_length", "module_name", "from_address",
              "from_function_name", "from_function_offset", "from_function_length", "from_module_name", "special_stack"],
    "python": ["function_name", "file_name", "file_line", "special_function", "special_file", "line_contents"],
    "ruby": ["function_name", "file_name", "file_line", "special_function", "block_level", "rescue_level"],
    "js": ["function_name", "file_name", "file_line", "line_column"],
}


def frame_eq(t, a, b, number=False):
    if t == "gdb":
        if a["signal_handler_called"] or b["signal_handler_called"]:
            return bool(a["signal_handler_called"] and b["signal_handler_called"])
        if number and a["number"] != b["number"]:
            return False
    if t == "java":
        if a["is_exception"] != b["is_exception"]:
            return False
        if a["is_exception"]:
            return a["name"] == b["name"]
    return _ks(a, CMP_FIELDS[t]) == _ks(b, CMP_FIELDS[t])


def dist_eq(t, a, b):
    """Equality of the distance comparison."""
    if t == "gdb":
        if a["function_name"] == "??" and b["function_name"] == "??":
            return False
        if a["function_name"] != b["function_name"]:
            return False
        if a["library_name"] is not None and b["library_name"] is not None:
            return a["library_name"] == b["library_name"]
        return True
    if t == "core":
        if a["function_name"] is not None and b["function_name"] is not None:
            return a["function_name"] == b["function_name"]
        if a["build_id"] == b["build_id"] and a["build_id_offset"] == b["build_id_offset"]:
            return True
        if a["fingerprint"] is not None and b["fingerprint"] is not None:
            return a["fingerprint"] == b["fingerprint"]
        return False
    names = {"java": ["name"], "koops": ["function_name"],
             "python": ["function_name", "file_name", "special_function", "special_file"],
             "ruby": ["function_name", "file_name", "special_function"],
             "js": ["file_line", "function_name", "file_name"]}[t]
    return _ks(a, names) == _ks(b, names)


def thread_eq(t, a, b):
    if t == "gdb" and a["number"] != b["number"]:
        return False
    if t == "java" and a["name"] != b["name"]:
        return False
    return len(a["frames"]) == len(b["frames"]) and all(frame_eq(t, x, y, True) for x, y in zip(a["frames"], b["frames"]))


def edit_distance(a, b, eq, transpose):
    """(Restricted) edit distance by the textbook full matrix."""
    n, m = len(a), len(b)
    d = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        d[i][0] = i
    for j in range(m + 1):
        d[0][j] = j
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            c = 0 if eq(a[i - 1], b[j - 1]) else 1
            d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + c)
            if transpose and i > 1 and j > 1 and eq(a[i - 1], b[j - 2]) and eq(a[i - 2], b[j - 1]):
                d[i][j] = min(d[i][j], d[i - 2][j - 2] + c)
    return d[n][m]


def equivalence(frames, eq):
    """Index of the class of each frame, or None when eq is no (partial) equivalence on them. A frame
    that is not even equal to itself forms a class of its own."""
    cls, reps = [], []
    for f in frames:
        own = eq(f, f)
        hits = [k for k, (r, o) in enumerate(reps) if own and o and eq(r, f)]
        if len(hits) > 1:
            return None
        if hits:
            cls.append(hits[0])
        else:
            reps.append((f, own))
            cls.append(len(reps) - 1)
    for i, f in enumerate(frames):
        for j, g in enumerate(frames):
            same = cls[i] == cls[j]
            if i == j:
                same = eq(f, f)
            if eq(f, g) != same:
                return None
    return cls


def jaccard(a, b, eq):
    cls = equivalence(a + b, eq)
    if cls is None:
        return None
    x, y = set(cls[:len(a)]), set(cls[len(a):])
    u = x | y
    return 0.0 if not u else 1.0 - len(x & y) / len(u)


def jaro_winkler(a, b, eq):
    """The library's own definition: matches within max/2-1, in-place transpositions, prefix weight 0.2."""
    if not a and not b:
        return 1.0
    w = max(len(a), len(b)) // 2 - 1
    prefix, still, trans, match = 0, True, 0, 0
    for i, f in enumerate(a):
        hit = None
        for j, g in enumerate(b):
            if i == j and not eq(f, g):
                still = False
            if abs(i - j) <= w and eq(f, g):
                hit = j
                break
        if still:
            prefix += 1
        if hit is not None:
            match += 1
            trans += hit != i
    if match == 0:
        return 0.0
    t = trans / 2
    j = (match / len(a) + match / len(b) + (match - t) / match) / 3
    return j + min(prefix, 4) * 0.2 * (1 - j)
