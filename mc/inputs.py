"""Input files for the program, written section by section"""


def text(**sections):
    """text(ld=dict(...), particle_distribution=dict(...)) -> input file

    Underscores in section names become hyphens; options are given literally,
    None leaves an option out, lists become comma separated values.
    """
    out = []
    for sec, opts in sections.items():
        if opts is None:
            continue
        name = "DEFAULT" if sec == "DEFAULT" else sec.replace("_", "-")
        out.append(f"[{name}]")
        for k, v in opts.items():
            if v is None:
                continue
            if isinstance(v, (list, tuple)):
                v = ", ".join(_num(x) for x in v)
            else:
                v = _num(v)
            out.append(f"{k}: {v}")
        out.append("")
    return "\n".join(out)


def _num(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, float):
        return repr(x)
    return str(x)


def pos_opts(positions):
    return {f"pos{i+1}": list(p) for i, p in enumerate(positions)}
