"""builds the facts extractor and the third-party metadata once"""
import extract
f, i = extract.extract()
print("setup: %d functions" % sum(len(c["fns"]) for c in f.values()), i)
