"""A table and a result for the methods of the block of C21"""
from enum import Enum
from typing import Union

from annotypes import Anno, Array, Serializable, WithCallTypes

from malcolm.core import Table


class Colour(Enum):
    RED = "red"
    BLUE = "blue"


with Anno("i"):
    AI = Union[Array[int]]
with Anno("k"):
    AK = Union[Array[str]]
with Anno("c"):
    AC = Union[Array[Colour]]
with Anno("a"):
    AA = int
with Anno("b"):
    AB = str


class Rows(Table):
    def __init__(self, i: AI, k: AK, c: AC) -> None:
        self.i = i
        self.k = k
        self.c = c


class Pair(Serializable):
    def __init__(self, a: AA, b: AB) -> None:
        self.a = a
        self.b = b
