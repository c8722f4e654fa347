class StreamInfo:
    def __init__(self, **k):
        self.__dict__.update(k)
