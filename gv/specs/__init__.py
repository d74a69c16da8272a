def load():
    from . import abi, chain, names, text, digest, nums, times, asset, b58, rmd, generic, gendec, abidef, abires, ctors
