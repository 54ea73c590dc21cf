from harness import codec, keys, script, interp, tx, hd, curve, misc, again
