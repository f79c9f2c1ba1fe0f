"""
Stand-in for the TiXI library: the functions used by the code under test, with the
behaviour documented for TiXI 3, on top of ElementTree. Calls are recorded.
"""

import collections
import xml.etree.ElementTree as ET

CALLS = collections.Counter()


class Tixi3Exception(Exception):
    def __init__(self, code, message=''):
        super().__init__(f'{message} ({code})')
        self.code = code


def record(func):
    def wrapped(self, *args, **kwargs):
        CALLS[func.__name__] += 1
        return func(self, *args, **kwargs)
    return wrapped


class Tixi3:
    def __init__(self):
        self.tree = None

    # ----- Documents -----
    @record
    def open(self, path, recursive=0):
        if not isinstance(path, str):
            raise TypeError('file name must be a string')
        try:
            self.tree = ET.parse(path)
        except (OSError, ET.ParseError) as err:
            raise Tixi3Exception('OPEN_FAILED', str(err))

    @record
    def saveDocument(self, path):
        self._root()
        self.tree.write(path, encoding='utf-8', xml_declaration=True)

    @record
    def close(self):
        self._root()
        self.tree = None

    cleanup = close

    @record
    def checkDocumentHandle(self):
        return self.tree is not None

    def _root(self):
        if self.tree is None:
            raise Tixi3Exception('INVALID_HANDLE')
        return self.tree.getroot()

    # ----- Elements -----
    @staticmethod
    def _step(step):
        step = step.strip()
        if '[' in step:
            name, index = step[:-1].split('[')
            return name, int(index)
        return step, None

    def _find_all(self, xpath):
        steps = [s for s in xpath.split('/') if s.strip()]
        root = self._root()
        name, index = self._step(steps[0])
        nodes = [root] if root.tag == name and index in (None, 1) else []
        for step in steps[1:]:
            name, index = self._step(step)
            found = []
            for node in nodes:
                children = [c for c in node if c.tag == name]
                if index is not None:
                    children = children[index - 1:index]
                found += children
            nodes = found
        return nodes

    def _find(self, xpath):
        nodes = self._find_all(xpath)
        if not nodes:
            raise Tixi3Exception('ELEMENT_NOT_FOUND', xpath)
        if len(nodes) > 1:
            raise Tixi3Exception('ELEMENT_PATH_NOT_UNIQUE', xpath)
        return nodes[0]

    @record
    def checkElement(self, xpath):
        return bool(self._find_all(xpath))

    @record
    def getNamedChildrenCount(self, xpath, name):
        return len([c for c in self._find(xpath) if c.tag == name])

    @record
    def getNumberOfChilds(self, xpath):
        return len(list(self._find(xpath)))

    @record
    def xPathEvaluateNodeNumber(self, xpath):
        n = len(self._find_all(xpath))
        if not n:
            raise Tixi3Exception('FAILED', xpath)
        return n

    @record
    def getTextElement(self, xpath):
        return self._find(xpath).text or ''

    @record
    def getDoubleElement(self, xpath):
        text = self._find(xpath).text
        try:
            return float(text)
        except (TypeError, ValueError):
            raise Tixi3Exception('NOT_DOUBLE', xpath)

    @record
    def getTextAttribute(self, xpath, name):
        node = self._find(xpath)
        if name not in node.attrib:
            raise Tixi3Exception('ATTRIBUTE_NOT_FOUND', xpath)
        return node.attrib[name]

    # ----- Vectors -----
    def _vector(self, xpath):
        text = self._find(xpath).text or ''
        return [float(x) for x in text.split(';') if x.strip()]

    @record
    def getVectorSize(self, xpath):
        return len(self._vector(xpath))

    @record
    def getFloatVector(self, xpath, n):
        return tuple(self._vector(xpath)[:n])

    @record
    def updateFloatVector(self, xpath, vector, n, format='%g'):
        self._find(xpath).text = ';'.join(format % float(x) for x in vector[:n])

    @record
    def addFloatVector(self, parent, name, vector, n, format='%g'):
        node = ET.SubElement(self._find(parent), name)
        node.set('mapType', 'vector')
        node.text = ';'.join(format % float(x) for x in vector[:n])

    # ----- UIDs -----
    def _walk(self, node, path):
        yield node, path
        seen = collections.Counter()
        for child in node:
            seen[child.tag] += 1
            yield from self._walk(child, f'{path}/{child.tag}[{seen[child.tag]}]')

    @record
    def uIDGetXPath(self, uid):
        root = self._root()
        for node, path in self._walk(root, '/' + root.tag):
            if node.attrib.get('uID') == uid:
                return path
        raise Tixi3Exception('UID_DONT_EXISTS', uid)

    @record
    def uIDCheckExists(self, uid):
        return any(node.attrib.get('uID') == uid for node in self._root().iter())
