"""A module as the programs py2xsd and py2wsdl take it; the namespace and names in it are inputs of the harness."""
import sx
from soapfish import soap, xsd

NS = 'urn:' + sx.str('ns', 1, 2, 'printable')
NAME = sx.choice('type', ['T', 'Other', 't_1'])


class Value(xsd.String):
    enumeration = [sx.str('word', 1, 2, 'printable')]


Type = xsd.Complex_PythonType(NAME, (xsd.ComplexType,), {'v': xsd.Element(Value), 'n': xsd.ListElement(xsd.Int, 'n', minOccurs=sx.choice('min', [0, 1, 2]))})

MORE = sx.choice('more objects', ['none', 'before', 'after'])
if MORE == 'before':
    Another = xsd.Schema('urn:another', elements={'f': xsd.Element(xsd.String)})
    ANOTHER = soap.Service('urn:another', 'http://another/', [Another], [])

Schema = xsd.Schema(NS, elementFormDefault=sx.choice('form', ['qualified', 'unqualified']), simpleTypes=[Value], complexTypes=[Type], elements={'e': xsd.Element(Type)})
SERVICE = soap.Service(NS, 'http://h/' + sx.str('path', 0, 1, 'abc'), [Schema], [xsd.Method('op', sx.str('action', 0, 1, 'printable'), 'e', 'e')])

if MORE == 'after':
    XSchema = xsd.Schema('urn:another', elements={'f': xsd.Element(xsd.String)})
    XSERVICE = soap.Service('urn:another', 'http://another/', [XSchema], [])
