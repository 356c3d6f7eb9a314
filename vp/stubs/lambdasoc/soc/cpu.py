class CPUSoC:
    def build(self, **kwargs):
        self.built = kwargs
