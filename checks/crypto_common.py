"""shared by C03..C07: the repo's cipher classes over stubbed primitives"""
import cryptostub

encrypt = None


def setup(symbolic):
    global encrypt
    cryptostub.install()
    import scheduler.crypto.encrypt as e
    encrypt = e


KEYS = 'abcdefghijklmnopqrstuvwxyz'
A2 = [(0x20, 0x7e)]
ASCII = [(1, 0x7f)]
U_NONUL = [(1, 0xD7FF), (0xE000, 0x10FFFF)]
