class Dataset:
    pass


from torch.utils.data.dataloader import DataLoader  # noqa: E402,F401
