import sys, os
def prepare(verif, work, rep):
    sys.path.insert(0, os.path.join(verif, "tools"))
    from instrprep import instrument
    instrument(verif, work, rep, ["jobs", "corereader2", "concurrency", "chainstorage", "intrinsicobjectscri", "intrinsicobjectschi", "transactionindexing"])
