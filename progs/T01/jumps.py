from nagini_contracts.contracts import *
from typing import Optional


class A(Exception):
    pass


# run: 0..3
def m1(n: int) -> int:
    t = 0
    try:
        if n == 2:
            return 5
    finally:
        for i in range(1, 4):
            t = t + 1
    return t


# run: 0..3
def m2(n: int) -> int:
    t = 0
    try:
        if n == 2:
            return 5
    finally:
        i = 0
        while i < 2:
            i += 1
    return t


# run: 0..3
def m3(n: int) -> int:
    t = 0
    for i in range(1, 4):
        for j in range(1, 3):
            t = t + 1
        else:
            if n == 1:
                break
        t = t + 100
    return t


# run: 0..3
def m4(n: int) -> int:
    t = 0
    for i in range(1, 4):
        try:
            for j in range(1, 3):
                t = t + 1
            else:
                if n == 1:
                    break
            t = t + 10
        except A:
            t = t + 1000
        t = t + 100
    return t


# run: 0..3
def m5(n: int) -> int:
    t = 0
    try:
        if n == 2:
            t = 7
    except A:
        t = 1
    else:
        if n == 2:
            return 5
    finally:
        i = 0
        while i < 2:
            i += 1
    return t


# run: 0..3
def m6(n: int) -> int:
    t = 0
    for i in range(1, 4):
        try:
            if n == 1:
                break
            try:
                if n == 2:
                    return 9
            finally:
                t = t + 5
        except A:
            t = t + 1000
        t = t + 100
    return t
