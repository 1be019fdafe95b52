"""C23: runtimes and WASI environments side by side in one process."""
import eng_exec
import eng_prog


def run(ctx):
    eng_prog.apart(ctx)
    eng_exec.apart(ctx)
