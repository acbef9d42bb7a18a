"""what counts as a clean refusal of an input: the documented parsing and validation errors"""
CLEAN = {'PyXBException', 'ValidationError', 'SAXException', 'SAXParseException', 'SAXUnicodeDecodeError', 'XMLParsingFailed', 'SemanticValidationError', 'TimeFormatError',
         'TimeFormatOverflowError', 'ExtentMissingError',
         # the parser of the platform (Jython's is Java's)
         'UnsupportedEncodingException', 'MalformedInputException', 'UnmappableCharacterException'}


def refused(exc):
    return bool(CLEAN & set(exc['mro']))
