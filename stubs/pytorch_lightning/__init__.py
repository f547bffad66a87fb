class LightningModule:
    device = "cpu"

    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)

    def save_hyperparameters(self, *args, **kwargs):
        pass

    def log(self, name, value, *args, **kwargs):
        self.__dict__.setdefault("logged", {})[name] = value


class Trainer:
    def __init__(self, *args, **kwargs):
        pass
