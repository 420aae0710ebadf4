import shutil, sys
miss = [t for t in ("goto-cc", "goto-instrument", "cbmc", "cvc5", "gcc", "pkg-config") if not shutil.which(t)]
sys.exit("missing tools: %s" % miss if miss else 0)
