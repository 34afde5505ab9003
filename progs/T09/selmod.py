from nagini_contracts.contracts import *


def helper(x: int) -> int:
    Ensures(Result() == x + 1)
    return x + 1


class Shape:
    def __init__(self) -> None:
        Ensures(Acc(self.w) and self.w == 0)  # type: ignore
        self.w = 0

    def grow(self, d: int) -> None:
        Requires(Acc(self.w))
        Ensures(Acc(self.w) and self.w == Old(self.w) + d)
        self.w = self.w + d
