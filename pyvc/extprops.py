"""C16, the parts around the compiled reader: read_object hands it the record, files say when it is used, and the property
dictionary it makes (a class of _ext.pyx) behaves as the one of avb.core."""
import ast

from . import cyx, driver, extproof, fileprops, ghost, identprops


def pyx_class(name):
    """the class of _ext.pyx as Python text"""
    from . import cxx
    core = cxx.Cxx(extproof.find(driver.REPO, '_ext_core.cpp'))
    text, y = cyx.to_python(extproof.find(driver.REPO, '_ext.pyx'), core)
    for n in ast.parse(text).body:
        if isinstance(n, ast.ClassDef) and n.name == name:
            return n
    raise identprops.Unsupported('class %s of _ext.pyx' % name)


def package(names):
    """avb with AVBPropertyData of _ext.pyx in the place of the one of avb.core"""
    pk = ghost.package(names)
    node = pyx_class('AVBPropertyData')
    pk.replace = {('core', 'AVBPropertyData'): node}
    return pk


DICT = [('AVBPropertyData of the compiled reader: ' + n, identprops.dict_op(n, f, False), 'symbolic') for n, f in identprops.D_READS]
DICT += [('AVBPropertyData of the compiled reader: ' + n, identprops.dict_iteration(n), 'symbolic') for n in ('items', 'values')]
DICT += [('fields of an object made by the compiled reader: assigned', identprops.set_field, 'symbolic'),
         ('fields of an object made by the compiled reader: read', identprops.get_field, 'symbolic')]
FILE = [('read_object with compiled readers', fileprops.load('little', True), 'symbolic'),
        ('opened little-endian files', fileprops.open_saved('little'), 'symbolic'),
        ('files opened without the compiled reader', fileprops.open_saved('little', False), 'symbolic'),
        ('opened big-endian files', fileprops.open_saved('big'), 'symbolic')]
