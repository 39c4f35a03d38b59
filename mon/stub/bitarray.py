# Stand-in for the bitarray extension, which Jython cannot load.  Only the
# `seven` option of compressor.simple uses it, and no check turns that on.
class bitarray(object):
    def __init__(self, *a, **k):
        raise NotImplementedError("bitarray is not available here")
