"""Runs the Python implementation: one JSON request per line, one JSON answer per line."""
import json
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import svdtools  # noqa: E402


def cli(args):
    """The command line program: what it prints."""
    from click.testing import CliRunner

    import svdtools.cli

    r = CliRunner().invoke(svdtools.cli.svdtools_cli, [str(a) for a in args])
    if r.exception is not None or r.exit_code != 0:
        raise RuntimeError("exit %s: %s %r" % (r.exit_code, r.output, r.exception))
    return r.stdout


answer = sys.stdout
sys.stdout = sys.stderr
for line in sys.stdin:
    q = json.loads(line)
    try:
        if q["tool"] == "cli":
            r = {"ok": cli(q["args"])}
        else:
            r = {"ok": getattr(svdtools, q["tool"]).main(*q["args"])}
    except BaseException as e:  # noqa: B902
        r = {"err": "%s: %s" % (type(e).__name__, e)}
    answer.write(json.dumps(r) + "\n")
    answer.flush()
