"""Access to the code under test, shared by all checks."""
import os
import sys
from symx import native
from symx.harness import Check, REPO          # noqa: F401  (re-exported)
from symx import core


def four(ctx):
    return native.load('four', ctx.symbolic)


def three(ctx):
    return native.load('three', ctx.symbolic)


def repo(ctx):
    """make the repository importable, with its C++ modules built for this kind of run"""
    native.install(ctx.symbolic)


def fabs(x):
    return abs(x)


def sort2(a, b):
    return (a, b) if a >= b else (b, a)
