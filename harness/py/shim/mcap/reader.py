"""Stand-in for mcap.reader: the recording is a list of messages held by the worker. As in the real package, the summary
and its statistics are optional, and channels and messages are plain objects."""

RECORDING = None  # set by the worker


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class Reader:
    def __init__(self, rec):
        self.rec = rec

    def get_summary(self):
        return self.rec.summary

    def iter_messages(self, topics=None, start_time=None, end_time=None, log_time_order=True, reverse=False):
        ms = list(self.rec.messages)
        if topics is not None:
            ms = [m for m in ms if m[1].topic in topics]
        ms = [m for m in ms if (start_time is None or m[2].log_time >= start_time) and (end_time is None or m[2].log_time < end_time)]
        if log_time_order:
            ms.sort(key=lambda m: m[2].log_time, reverse=reverse)
        for m in ms:
            self.rec.read += 1
            yield m


def make_reader(stream, validate_crcs=False, decoder_factories=()):
    if stream.read(8) != b"\x89MCAP0\r\n":
        raise ValueError("not an MCAP file")
    return Reader(RECORDING)
