import multiprocessing as mp, os

NPROC = int(os.environ.get("VP_PROCS", "8"))


def pmap(fn, items, chunksize=1):
    """Unordered parallel map in forked workers; an exception in a worker is an error of the check."""
    items = list(items)
    if not items:
        return
    ctx = mp.get_context("fork")
    with ctx.Pool(min(NPROC, len(items))) as pool:
        for r in pool.imap_unordered(fn, items, chunksize):
            yield r
        pool.close()
        pool.join()
