From 05016c84605d0e751d4b26d55ff1edae7ef8fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 01/73] fix: pad years before 1000 to four digits when writing
 xsd:date and xsd:dateTime

---
 soapfish/xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..0a41c4a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -246,7 +246,8 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        # strftime('%Y') does not pad years before 1000 to four digits on every platform
+        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%d')
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
@@ -295,7 +296,8 @@ class DateTime(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
+        # strftime('%Y') does not pad years before 1000 to four digits on every platform
+        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%dT%H:%M:%S')
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
-- 
2.43.0


From 8b43e0c051025eb67a62e1ed1127580dd8e0c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 02/73] fix: a pattern facet must match the whole value

---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0a41c4a..142ef80 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -152,8 +152,7 @@ class String(SimpleType):
         value = self._clean_whitespace(value)
 
         if self.pattern:
-            pattern = self.pattern + '$'
-            if re.match(pattern, value) is None:
+            if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
         if self.enumeration:
@@ -382,8 +381,7 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            pattern = self.pattern + '$'
-            if re.match(pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, str(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-- 
2.43.0


From 952a3099fb764ac1a70541031aa2f8c6f7f1c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 03/73] fix: enforce length and maxLength facets of zero

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 142ef80..8d85089 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -159,15 +159,15 @@ class String(SimpleType):
             if not (value in self.enumeration):
                 raise ValueError(f"Value '{value}' not in list {self.enumeration}.")
 
-        if self.length:
+        if self.length is not None:
             if len(value) != self.length:
                 raise ValueError(f"Value '{value}' length {self.length} expected.")
 
-        if self.minLength:
+        if self.minLength is not None:
             if len(value) < self.minLength:
                 raise ValueError(f"Value '{value}' minLength {self.minLength} expected.")
 
-        if self.maxLength:
+        if self.maxLength is not None:
             if len(value) > self.maxLength:
                 raise ValueError(f"Value '{value}' maxLength {self.maxLength} expected.")
 
-- 
2.43.0


From 6d6abe77eaeed1e2d8e5227f3a71e3711c32f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 04/73] fix: whiteSpace facet only touches XML white space and
 collapse trims both ends

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8d85089..a8ed6ba 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -185,10 +185,10 @@ class String(SimpleType):
             pass
         elif self.whiteSpace == 'replace':
             # replace line feeds, tabs, spaces, and carriage returns with whitespaces
-            value = re.sub(r'[\t\r\n\s]', ' ', value)
+            value = re.sub(r'[\t\r\n]', ' ', value)
         elif self.whiteSpace == 'collapse':
-            # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value)
+            # replace runs of line feeds, tabs, spaces, and carriage returns with one space, none at either end
+            value = re.sub(r'[\t\r\n ]+', ' ', value).strip(' ')
 
         return value
 
-- 
2.43.0


From 7a9303531b4c5ab5d3f3dda50bfdd18f6a01fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 05/73] fix: facets given for an integer type are not replaced
 by the type's own

---
 soapfish/xsd.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a8ed6ba..395f6a9 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -443,8 +443,17 @@ class Integer(Decimal):
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
         facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        overrides = {}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
+            overrides.update(c.overrides)
+        for k, v in overrides.items():
+            # facets can only narrow the value space of the type.
+            if facets.get(k) is None:
+                facets[k] = v
+            elif k == 'minInclusive':
+                facets[k] = max(facets[k], v)
+            elif k in ('maxInclusive', 'fractionDigits'):
+                facets[k] = min(facets[k], v)
         super().__init__(**facets)
 
     def accept(self, value):
-- 
2.43.0


From 18ffb72f996a8eb87176d941303b329d648c293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 06/73] fix: read the boolean forms 1 and 0, and write accepted
 1 and 0

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 395f6a9..d0320e1 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -196,7 +196,7 @@ class String(SimpleType):
 class Boolean(SimpleType):
     def accept(self, value):
         if value in [True, False, None]:
-            return value
+            return None if value is None else bool(value)
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
@@ -211,9 +211,9 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        if value in ('false', '0'):
             return False
-        elif value == 'true':
+        elif value in ('true', '1'):
             return True
         elif value == 'nil' or value is None:
             return None
-- 
2.43.0


From 5d32658d10dc6951b556f1b1e9a4abdd06ef3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 07/73] fix: xsd:date text with a negative year, an hour-only
 offset or a trailing newline

---
 soapfish/xsd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d0320e1..5046875 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -228,9 +228,9 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        ^(\-)?
+        ^(?P<sign>\-)?
         (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
-        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
+        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2})(:?(?P<tz_minute>[0-9]{2}))?))?\Z''', re.VERBOSE | re.ASCII)
 
     def accept(self, value):
         if value is None:
@@ -261,6 +261,8 @@ class Date(SimpleType):
         match = self.YEAR_MONTH_DAY_REGEX.match(value)
         if match is None:
             raise ValueError(f'Unable to parse date string {value!r}')
+        if match.group('sign'):
+            raise ValueError(f'Years before 1 are not supported: {value!r}')
         year = int(match.group('year'))
         month = int(match.group('month'))
         day = int(match.group('day'))
@@ -276,7 +278,7 @@ class Date(SimpleType):
 
         sign = 1 if match.group('tz_sign') == '+' else -1
         hours = int(match.group('tz_hour'))
-        minutes = int(match.group('tz_minute'))
+        minutes = int(match.group('tz_minute') or 0)
         return timezone(sign * timedelta(hours=hours, minutes=minutes), name='UTC' + offset)
 
 
-- 
2.43.0


From 011a05c2af7125847e37a2dc1c0fcb6fae85d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 08/73] fix: objects no longer share the lists of their
 referenced groups

---
 soapfish/xsd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5046875..5423b61 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,7 +27,6 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
-import copy
 import decimal
 import enum
 import functools
@@ -731,7 +730,7 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        return self._type.__class__()
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-- 
2.43.0


From 18cccd147a4953eb221bc77f6ff70b20c022b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 09/73] fix: read an attribute under the tag name it is written
 with

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5423b61..c9adb2d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -695,7 +695,7 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
         if xmlvalue is None:
             xmlvalue = self.default
         value = self._type.pythonvalue(xmlvalue)
-- 
2.43.0


From 4d6fbcab8ea16d558ebb34c87f90b057204eef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 10/73] fix: parse a child element into the field it was
 written from

---
 soapfish/xsd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index c9adb2d..f7607a5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -956,10 +956,11 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
+        if not isinstance(xmlelement.tag, str):
+            # comments and processing instructions
             return False
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From 8f5e783406833ff9f38bc428f15395e1000f7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 11/73] fix: xsi:nil is a boolean for single and repeated
 elements alike

---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f7607a5..6a25a72 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -543,6 +543,10 @@ def import_type(type_name):
     return getattr(module, name)
 
 
+def is_nil(xmlelement):
+    return xmlelement.get(f'{{{ns.xsi}}}nil') in ('true', '1')
+
+
 class Element:
     """
     Basic building block, represents an XML element that can appear 0 or 1 times that should be rendered as subelement.
@@ -630,7 +634,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -827,7 +831,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From 04ada727262c917809750358ccf8a47094102f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 12/73] fix: numeric facets can be combined with Python
 decimals and the sign is no digit

---
 soapfish/xsd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6a25a72..6ff50c7 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -387,9 +387,7 @@ class Decimal(SimpleType):
 
         if self.totalDigits is not None:
             strvalue = str(value)
-            length = len(strvalue)
-            if '.' in strvalue:
-                length -= 1
+            length = sum(c.isdigit() for c in strvalue)
             if length > self.totalDigits:
                 raise ValueError(f'Number of total digits of {strvalue} is bigger than {self.totalDigits}.')
 
@@ -399,7 +397,8 @@ class Decimal(SimpleType):
         if value is None:
             return None
         elif isinstance(value, decimal.Decimal):
-            value = str(value)
+            self._check_restrictions(value)
+            return str(value)
         elif isinstance(value, (float, int)):
             pass  # value is just value
         elif isinstance(value, str):
-- 
2.43.0


From 55f8ad94e4acfa33d3f081790801faab38c0d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 13/73] fix: responses keep the HTTP status they are created
 with

---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From ad33db587c85dba34a9b8103ee431e0662e4e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 14/73] fix: plain text replies are bytes, as WSGI demands

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..79bf2bd 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -174,7 +174,7 @@ class SOAPDispatcher:
         elif request_method == 'POST':
             return self.handle_soap_request(request)
         else:
-            return SOAPResponse('bad request', http_status_code=400, http_content='bad_request',
+            return SOAPResponse('bad request', http_status_code=400, http_content=b'bad_request',
                                 http_headers={'Content-Type': 'text/plain'})
 
     def handle_soap_request(self, request):
@@ -225,7 +225,7 @@ class SOAPDispatcher:
         try:
             xsd = self.xsds[qs['xsd'][0] or 'xsd']
         except KeyError:
-            response = SOAPResponse('not found', http_status_code=404, http_content='not_found',
+            response = SOAPResponse('not found', http_status_code=404, http_content=b'not_found',
                                     http_headers={'Content-Type': 'text/plain'})
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
-- 
2.43.0


From 696564dcbc12b1ede98986da60e2888ffd58aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 15/73] fix: call the xsd-response hook for schema requests

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 79bf2bd..1ef2ee7 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -230,7 +230,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From 814f94b0983b61eb6a0e54677a88bb041ce75100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 16/73] fix: answer when the response has no named output
 element

---
 soapfish/soap_dispatch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 1ef2ee7..9ed72b4 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -200,10 +200,9 @@ class SOAPDispatcher:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
+            # a middleware may have answered before the method was determined
+            if request.method is not None and isinstance(request.method.output, str):
                 tagname = request.method.output
-            else:
-                tagname = uncapitalize(response.content.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From 33b791fa88e5f05b80433dedce787e29e25d375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 17/73] fix: fault instead of AttributeError for elements
 outside of a substitution group

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9ed72b4..84cfc63 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -97,7 +97,8 @@ class SOAPDispatcher:
                 pass  # fall through and check for substitution group element
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
-                e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
+                e = next(e for s in self.service.schemas for n, e in s.elements.items()
+                         if n == root_tag and e.substitutionGroup)
                 return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
-- 
2.43.0


From c5af7d0b80013c4596d3a5fe62bd3df6ef999ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 18/73] fix: fault for an empty SOAP body, comments in the body
 are no content

---
 soapfish/soap11.py        | 5 +++--
 soapfish/soap_dispatch.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..36a00a2 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -57,10 +57,11 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        return ContentType.parse_xmlelement(self.content())
 
     def content(self):
-        return self._xmlelement[0]
+        # skip comments and processing instructions
+        return next((e for e in self._xmlelement if isinstance(e.tag, str)), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 84cfc63..9020540 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -71,7 +71,7 @@ class SOAPDispatcher:
         # specs (according to my interpretation):
         # SOAP 1.1: http://schemas.xmlsoap.org/soap/envelope/
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
-        if envelope.Body is None:
+        if envelope.Body is None or envelope.Body.content() is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
         return envelope
 
-- 
2.43.0


From c777aca7d82e060c022eceadd70456a612bb33b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 19/73] fix: ignore comments in the SOAP header

---
 soapfish/soap_dispatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9020540..ce54f6b 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -131,6 +131,9 @@ class SOAPDispatcher:
         if soap_header is None:
             return
         for children in soap_header._xmlelement.getchildren():
+            if not isinstance(children.tag, str):
+                # comments and processing instructions
+                continue
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
-- 
2.43.0


From 393f3caf9d75cf36c90091a165a643737af2a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 20/73] fix: client fault for nil SOAP bodies, nil headers are
 no headers

---
 soapfish/soap_dispatch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index ce54f6b..dccf851 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -6,7 +6,7 @@ from urllib.parse import parse_qs
 
 from lxml import etree
 
-from . import py2wsdl, py2xsd, wsa
+from . import py2wsdl, py2xsd, wsa, xsd
 from .core import SOAPError, SOAPRequest, SOAPResponse
 from .utils import uncapitalize, walk_schema_tree
 
@@ -63,8 +63,10 @@ class SOAPDispatcher:
         try:
             # note : no validation is performed
             envelope = SOAP.Envelope.parsexml(xml)
-        except etree.XMLSyntaxError as e:
+        except (etree.XMLSyntaxError, ValueError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
+        if envelope.Header is xsd.NIL:
+            envelope.Header = None
         # Actually this is more a stopgap measure than a real fix. The real
         # fix is to change SOAP.Envelope/ComplexType so it raises some kind of
         # validation error. A missing SOAP body is not allowed by the SOAP
-- 
2.43.0


From 91dbfd180bc6e7713b00c7fb0b10243c066d0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 21/73] fix: schemas may import others without a location

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index dccf851..bf9c285 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -239,7 +239,8 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From e264a9347771f5ffe1dbba709ca95dc6a729a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 22/73] fix: find the SOAPAction header in WSGI environments

---
 soapfish/soap11.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 36a00a2..19c7796 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -12,6 +12,9 @@ NAME = 'soap11'
 def determine_soap_action(request):
     if request.environ.get('SOAPACTION'):
         return request.environ.get('SOAPACTION').replace('"', '')
+    elif request.environ.get('HTTP_SOAPACTION'):
+        # the name WSGI servers give to the header
+        return request.environ.get('HTTP_SOAPACTION').replace('"', '')
     elif request.environ.get('ACTION'):
         return request.environ.get('ACTION').replace('"', '')
     else:
-- 
2.43.0


From 63bd31b0b989012dc7c0830431812aa0e914e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 23/73] fix: services can use WS-Addressing headers

---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From 0bb295cbbb95aaaab290253eab4b0d8cc0422353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 24/73] fix: parsing a document returns it and leaves the class
 alone

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6ff50c7..c3ef40d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1068,7 +1068,9 @@ class Document(ComplexType):
     def parsexml(cls, xml):
         field = cls._meta.fields[0]  # The only field.
         xmlelement = etree.fromstring(xml)
-        field.parse(cls, field._name, xmlelement)
+        instance = cls()
+        field.parse(instance, field._name, xmlelement)
+        return instance
 
 
 class List(SimpleType):
-- 
2.43.0


From 910d0cc5c007601a598853ddf9edd3e3964e0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 25/73] fix: generated schemas carry every facet

---
 soapfish/py2xsd.py | 50 ++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..ba7e57a 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -34,6 +34,21 @@ def get_xsd_type(_type):
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
 
+def add_facets(restriction, _type):
+    for value in getattr(_type, 'enumeration', None) or ():
+        restriction.enumerations.append(xsdspec.Enumeration.create(value if isinstance(value, str) else str(value)))
+
+    pattern = getattr(_type, 'pattern', None)
+    if pattern is not None:
+        restriction.pattern = xsdspec.Pattern(value=str(pattern))
+
+    for facet in ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits',
+                  'length', 'minLength', 'maxLength', 'whiteSpace'):
+        value = getattr(_type, facet, None)
+        if value is not None:
+            setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
+
+
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute._name
@@ -51,7 +66,6 @@ def create_xsd_element(element):
         xsd_element.maxOccurs = element._maxOccurs
 
     # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
     _type = element._type
 
     if not inspect.isclass(element._passed_type):
@@ -59,31 +73,7 @@ def create_xsd_element(element):
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
 
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
-                xsd_element.simpleType.restriction.enumerations.append(enum)
-
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-            xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
-
-        if hasattr(_type, 'pattern') and _type.pattern:
-            xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
-
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
-
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
-
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
-
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
-
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
-            xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+        add_facets(xsd_element.simpleType.restriction, _type)
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
@@ -126,13 +116,7 @@ def xsd_simpleType(st):
     xsd_simpleType.name = uncapitalize(st.__name__)
     xsd_restriction = xsdspec.Restriction()
     xsd_restriction.base = get_xsd_type(st.__bases__[0]())
-    if hasattr(st, 'enumeration') and st.enumeration:
-        for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
-    if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
-    elif hasattr(st, 'pattern') and st.pattern:
-        xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
+    add_facets(xsd_restriction, st)
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
-- 
2.43.0


From 44fdd445c870755eedd2d3d3561190f1d4fb5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 26/73] fix: generated schemas name all built-in types

---
 soapfish/py2xsd.py | 6 ++++--
 soapfish/utils.py  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index ba7e57a..2973607 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -13,10 +13,12 @@ from .utils import uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN,
+                xsd.NMTOKENS]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..47e9477 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -42,7 +42,7 @@ def remove_namespace(qname):
 
 
 def uncapitalize(value):
-    return value if value == 'QName' else value[0].lower() + value[1:]
+    return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
 
 def schema_name(obj, location=None):
-- 
2.43.0


From 87a499743a3e89e267b61c746a4628921b7752a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 27/73] fix: generated schemas describe attributes under the
 tag name they are written with

---
 soapfish/py2xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 2973607..9335c44 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -53,7 +53,7 @@ def add_facets(restriction, _type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
-- 
2.43.0


From 9fae03917b695e6635d7d8ec7c478ec6f7a89a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 28/73] fix: generated schemas do not restrict unlimited lists
 to one element

---
 soapfish/py2xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 9335c44..6f4594d 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -64,8 +64,10 @@ def create_xsd_element(element):
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
     xsd_element.minOccurs = element._minOccurs
-    if hasattr(element, '_maxOccurs'):
-        xsd_element.maxOccurs = element._maxOccurs
+    if isinstance(element, xsd.ListElement):
+        # lists are unlimited by default, the XSD default would be exactly one element
+        xsd_element.minOccurs = element._minOccurs or 0
+        xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
     # SimpleType defined in place.
     _type = element._type
-- 
2.43.0


From 919c2aad72599f53b1cbd196baf0c1e885ce4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 29/73] fix: schemas of types with attributes can be generated

---
 soapfish/xsdspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From 36d49f63894cdae536001f85e525521076d8f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 30/73] fix: generated schemas carry the facets of attributes

---
 soapfish/py2xsd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 6f4594d..ab1ccac 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -55,7 +55,12 @@ def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-    xsdattr.type = get_xsd_type(attribute._type)
+    if inspect.isclass(attribute._passed_type):
+        xsdattr.type = get_xsd_type(attribute._type)
+    else:
+        # SimpleType defined in place.
+        xsdattr.simpleType = xsdspec.SimpleType(restriction=xsdspec.Restriction(base=get_xsd_type(attribute._type)))
+        add_facets(xsdattr.simpleType.restriction, attribute._type)
     return xsdattr
 
 
-- 
2.43.0


From 88fb2af6dfcaee19f456d73bed5bd2074281f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 31/73] fix: enforce the numeric facets of derived types, also
 those given as text

---
 soapfish/xsd.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index c3ef40d..f121f91 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -347,14 +347,30 @@ class Decimal(SimpleType):
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None, totalDigits=None):
-        self.enumeration = enumeration
-        self.fractionDigits = fractionDigits
-        self.maxExclusive = maxExclusive
-        self.maxInclusive = maxInclusive
-        self.minExclusive = minExclusive
-        self.minInclusive = minInclusive
-        self.pattern = pattern
-        self.totalDigits = totalDigits
+        self.enumeration = self._facet('enumeration', enumeration)
+        self.fractionDigits = self._facet('fractionDigits', fractionDigits)
+        self.maxExclusive = self._facet('maxExclusive', maxExclusive)
+        self.maxInclusive = self._facet('maxInclusive', maxInclusive)
+        self.minExclusive = self._facet('minExclusive', minExclusive)
+        self.minInclusive = self._facet('minInclusive', minInclusive)
+        self.pattern = self._facet('pattern', pattern)
+        self.totalDigits = self._facet('totalDigits', totalDigits)
+
+    def _facet(self, name, value):
+        """Facets can also be defined in children, generated code has them as text."""
+        def number(text):
+            if not isinstance(text, str):
+                return text
+            try:
+                return int(text)
+            except ValueError:
+                return float(text)
+
+        if value is None:
+            value = getattr(self.__class__, name, None)
+        if value is None or name == 'pattern':
+            return value
+        return [number(v) for v in value] if name == 'enumeration' else number(value)
 
     def _check_restrictions(self, value):
         if self.enumeration is not None and value not in self.enumeration:
@@ -443,6 +459,7 @@ class Integer(Decimal):
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
         facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        facets = {k: self._facet(k, v) for k, v in facets.items()}
         overrides = {}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
             overrides.update(c.overrides)
-- 
2.43.0


From 7c8ee0976a755524704f32c52c551277930bd621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 32/73] fix: generated code restricts simple types like their
 schema does

---
 soapfish/templates/lib.jinja2 | 47 ++++++++---------------------------
 soapfish/utils.py             | 15 +++++++++++
 2 files changed, 25 insertions(+), 37 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..eaa8d46 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -63,27 +63,11 @@ class {{ group.name|capitalize }}(xsd.Group):
 
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
-{%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
-{%- endif %}
-{%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
-{%- endif %}
-{%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
-{%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
-{%- endif %}
-{%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
-{%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
-{%- endif %}
-{%- if not restriction.enumerations and not restriction.pattern
-        and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+{%- for facet, value in restriction|facets %}
+    {{ facet }} = {{ value }}
+{%- else %}
     pass
-{%- endif %}
+{%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
@@ -136,28 +120,17 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {# blank line #}
 {%- endmacro %}
 
+{% macro render_element_arguments(element) -%}
+{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
+{%- endmacro %}
+
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_element_arguments(element) }})
     {%- endif %}
     {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}({% for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %}){{ render_element_arguments(element) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 47e9477..7186d31 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -142,6 +142,20 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         else:
             return f"__name__ + '.{name}'"
 
+    def facets(restriction):
+        """Return the names of the facets of a restriction along with the Python source of their values."""
+        result = []
+        if restriction.enumerations:
+            result.append(('enumeration', repr([e.value for e in restriction.enumerations])))
+        for name in ('pattern', 'minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'fractionDigits',
+                     'totalDigits', 'length', 'minLength', 'maxLength', 'whiteSpace'):
+            facet = getattr(restriction, name)
+            if facet:
+                value = int(facet.value) if name.endswith(('Digits', 'ength')) else facet.value
+                is_raw = name == 'pattern' and not re.search(r"['\r\n]|\\$", value)
+                result.append((name, f"r'{value}'" if is_raw else repr(value)))
+        return result
+
     keywords = set(keyword.kwlist)
 
     env = Environment(
@@ -150,6 +164,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
+        facets=facets,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
-- 
2.43.0


From cb1f30d2802f9adc3a2567f1135f3371c15df897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 33/73] fix: order schemas after all those they import

---
 soapfish/wsdl2py.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..ddc389d 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -18,16 +18,20 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
-    schemas, targets, counter, x = [], set(), len(schemas), collections.deque(schemas)
+    known = {schema.targetNamespace for schema in schemas}
+    schemas, targets, x = [], set(), collections.deque(schemas)
+    counter = len(x)
     while x and counter > 0:
-        counter -= 1
         schema = x.popleft()
-        ns = {i.namespace for i in schema.imports}
-        if x and ns and ns - targets:
+        # only wait for schemas which are still to come.
+        ns = {i.namespace for i in schema.imports} & known - {schema.targetNamespace}
+        if ns - targets:
+            counter -= 1
             x.append(schema)
         else:
             schemas.append(schema)
             targets.add(schema.targetNamespace)
+            counter = len(x)
     schemas.extend(x)  # always add remaining unorderable schemas...
     return schemas
 
-- 
2.43.0


From 3eba13bda65c476c68f208bb2b765e3eb31107d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 34/73] fix: order types after the whole chain of types they
 are derived from

---
 soapfish/xsd2py.py | 56 ++++++++++++++++------------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..d9fd6c8 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -11,7 +10,9 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import (
+    find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location,
+)
 
 logger = logging.getLogger('soapfish')
 
@@ -79,42 +80,23 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
 
 def _reorder_complexTypes(schema):
     """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
+    types = {complex_type.name: complex_type for complex_type in schema.complexTypes}
+    order = {}
+
+    def add(complex_type, children=()):
+        if complex_type.name in order or complex_type.name in children:
+            return
         content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
-
-        weights[complex_type.name] = (n, base)
-
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
-
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
-
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+        inherited = content and (content.extension or content.restriction)
+        base = types.get(remove_namespace(inherited.base)) if inherited else None
+        if base is not None:
+            add(base, children + (complex_type.name,))
+        order[complex_type.name] = len(order)
+
+    for complex_type in schema.complexTypes:
+        add(complex_type)
+
+    schema.complexTypes.sort(key=lambda complex_type: order[complex_type.name])
 
 
 def schema_to_py(schema, xsd_namespaces,
-- 
2.43.0


From 97530ce93fcc71a9165074f4350a7b002e87317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 35/73] fix: refuse hook names that only start like one

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index bf9c285..8bc0583 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -32,7 +32,7 @@ class SOAPDispatcher:
             hooks = {}
         else:
             for hook in hooks:
-                if not re.match(r'(soap|wsdl|xsd)-(request|response)', hook):
+                if not re.fullmatch(r'(soap|wsdl|xsd)-(request|response)', hook):
                     raise KeyError(f'Invalid dispatcher hook name: {hook}')
         self.hooks = hooks
 
-- 
2.43.0


From b8b0817e348e6695cae462fc4c652947112c1fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 36/73] fix: read the text around comments as well

---
 soapfish/xsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f121f91..67b6e04 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -108,7 +108,10 @@ class SimpleType(Type):
         parent.text = self.xmlvalue(value)
 
     def parse_xmlelement(self, xmlelement):
-        return self.pythonvalue(xmlelement.text)
+        # comments and processing instructions split the text
+        texts = [xmlelement.text] + [child.tail for child in xmlelement if not isinstance(child.tag, str)]
+        texts = [text for text in texts if text is not None]
+        return self.pythonvalue(''.join(texts) if texts else None)
 
     def xmlvalue(self, value):
         raise NotImplementedError
-- 
2.43.0


From 89104964a21f95b754cb040a478037c4516b5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 37/73] fix: white space around a boolean is not part of it

---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 67b6e04..1f0318b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -213,6 +213,8 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
+        if value is not None:
+            value = value.strip(' \t\r\n')
         if value in ('false', '0'):
             return False
         elif value in ('true', '1'):
-- 
2.43.0


From 92290e6a2f91cee6be8477bb4af803261b4fabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 38/73] fix: client fault for values that cannot be read

---
 soapfish/soap_dispatch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 8bc0583..b72cf05 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -166,8 +166,12 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except ValueError as e:
+            # e.g. dates out of range or headers which are not in the schema
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
-- 
2.43.0


From 44b592b38e1008b3fd5bae53ced120f63268fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 39/73] fix: validate messages of services with several schemas

---
 soapfish/py2xsd.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index ab1ccac..0a35588 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -240,8 +240,19 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
-    schema_element = etree.fromstring(schema_xml, parser)
+    if len(schemas) == 1:
+        schema_element = generate_xsd(schemas[0])
+    else:
+        # a document has one root only, so tie several schemas together.
+        schema_element = etree.Element('{%s}schema' % ns.xsd, nsmap={'xsd': ns.xsd})
+        for i, schema in enumerate(schemas):
+            location = f'soapfish-schema-{i}'
+            resolver.lookup[location] = schema
+            attributes = {'schemaLocation': location}
+            if schema.targetNamespace:
+                attributes['namespace'] = schema.targetNamespace
+            etree.SubElement(schema_element, '{%s}import' % ns.xsd, attributes)
+    schema_element = etree.fromstring(etree.tostring(schema_element), parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
 
-- 
2.43.0


From b050fa927c1aceca58c73ba8cb95974a9a9b1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 40/73] fix: schemas for fields with named types, instances of
 complex types and simple root elements

---
 soapfish/py2xsd.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 0a35588..8c21bba 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -51,16 +51,21 @@ def add_facets(restriction, _type):
             setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
 
 
+def xsd_inline_simpleType(_type):
+    """SimpleType defined in place."""
+    xsd_simpleType = xsdspec.SimpleType(restriction=xsdspec.Restriction(base=get_xsd_type(_type)))
+    add_facets(xsd_simpleType.restriction, _type)
+    return xsd_simpleType
+
+
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-    if inspect.isclass(attribute._passed_type):
+    if not isinstance(attribute._passed_type, xsd.SimpleType):
         xsdattr.type = get_xsd_type(attribute._type)
     else:
-        # SimpleType defined in place.
-        xsdattr.simpleType = xsdspec.SimpleType(restriction=xsdspec.Restriction(base=get_xsd_type(attribute._type)))
-        add_facets(xsdattr.simpleType.restriction, attribute._type)
+        xsdattr.simpleType = xsd_inline_simpleType(attribute._type)
     return xsdattr
 
 
@@ -74,15 +79,8 @@ def create_xsd_element(element):
         xsd_element.minOccurs = element._minOccurs or 0
         xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
-    # SimpleType defined in place.
-    _type = element._type
-
-    if not inspect.isclass(element._passed_type):
-        xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-
-        add_facets(xsd_element.simpleType.restriction, _type)
+    if isinstance(element._passed_type, xsd.SimpleType):
+        xsd_element.simpleType = xsd_inline_simpleType(element._type)
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
@@ -180,6 +178,8 @@ def generate_elements(xsd_schema, schema):
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
             xsd_element.type = get_xsd_type(element._type)
+        elif isinstance(element._passed_type, xsd.SimpleType):
+            xsd_element.simpleType = xsd_inline_simpleType(element._type)
         else:
             xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
 
-- 
2.43.0


From f66829d08d5a8f3abc7cf2f64ebd84f23db86ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 41/73] fix: headers follow the element form of their schema

---
 soapfish/soap11.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 19c7796..796cf7a 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -1,5 +1,7 @@
 import enum
 
+from lxml import etree
+
 from . import namespaces as ns, xsd
 
 ENVELOPE_NAMESPACE = ns.soap11_envelope
@@ -46,7 +48,14 @@ class Header(xsd.ComplexType):
         return ContentType.parse_xmlelement(self._xmlelement)
 
     def render(self, parent, instance, namespace=None, elementFormDefault=None):
-        return super().render(parent, instance, instance.SCHEMA.targetNamespace, elementFormDefault)
+        schema = instance.SCHEMA
+        super().render(parent, instance, schema.targetNamespace, elementFormDefault)
+        if schema.elementFormDefault == xsd.ElementFormDefault.QUALIFIED:
+            return
+        # header blocks are always qualified, but the schema decides about the elements in them.
+        for block in parent:
+            for element in block.iterdescendants('{%s}*' % schema.targetNamespace):
+                element.tag = etree.QName(element).localname
 
 
 class Fault(xsd.ComplexType):
-- 
2.43.0


From 701595080a0d8e028d4f4dd015dfc6d2de36275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 42/73] fix: the client reads headers that are declared for the
 whole service

---
 soapfish/soap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index e8ca771..664c979 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -104,8 +104,9 @@ class Stub:
         soap = self.service.version
         envelope = soap.Envelope.parsexml(content)
 
-        if envelope.Header and method and method.output_header:
-            response_header = envelope.Header.parse_as(method.output_header)
+        output_header = (method and method.output_header) or self.service.output_header
+        if envelope.Header and output_header:
+            response_header = envelope.Header.parse_as(output_header)
         else:
             response_header = None
 
-- 
2.43.0


From c703e18dcff10e71c638343e594d5a63caad2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 43/73] fix: find wsgi.url_scheme in Django requests

---
 soapfish/django_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 3b413cc..b70e09c 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -9,8 +9,8 @@ class DjangoEnvironWrapper:
         self.environ = environ
 
     def get(self, name, default=None):
-        name = name.replace('-', '_').upper()
-        for key in (name, 'HTTP_' + name):
+        header = name.replace('-', '_').upper()
+        for key in (name, header, 'HTTP_' + header):
             if key in self.environ:
                 return self.environ[key]
         return default
-- 
2.43.0


From 4741a93703b4b4af8db5d2141f69aa844695d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 44/73] fix: find the X-Forwarded-Proto header in WSGI
 environments

---
 soapfish/soap_dispatch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b72cf05..bafcf43 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -220,6 +220,8 @@ class SOAPDispatcher:
     def handle_wsdl_request(self, request):
         request = self._call_hook('wsdl-request', dispatcher=self, request=request)
         scheme = request.environ.get('X_FORWARDED_PROTO', request.environ.get('wsgi.url_scheme', 'http'))
+        # the name WSGI servers give to the header
+        scheme = request.environ.get('HTTP_X_FORWARDED_PROTO', scheme)
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-- 
2.43.0


From b4d5f74e3c8bce9146318cfb42610a82f96e6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 45/73] fix: quote the locations of schemas in links

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index bafcf43..bcea5db 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -2,7 +2,7 @@ import functools
 import logging
 import re
 import string
-from urllib.parse import parse_qs
+from urllib.parse import parse_qs, quote
 
 from lxml import etree
 
@@ -246,7 +246,7 @@ class SOAPDispatcher:
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
             if 'schemaLocation' in e.attrib:
-                e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+                e.attrib['schemaLocation'] = '?xsd=%s' % quote(e.attrib['schemaLocation'], safe='/:')
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From c431740c5bcb48b34ef3aeeb55d85206327a3d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 46/73] fix: numbers are read and written in the forms of XML
 Schema only

---
 soapfish/xsd.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 1f0318b..423bdd6 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -33,6 +33,7 @@ import functools
 import importlib
 import itertools
 import logging
+import math
 import re
 from datetime import datetime, time, timedelta, timezone
 
@@ -348,6 +349,7 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)')
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
@@ -414,24 +416,40 @@ class Decimal(SimpleType):
 
         return value
 
+    def _check_number(self, value):
+        # xsd:decimal has neither infinities nor NaN
+        is_finite = value.is_finite() if isinstance(value, decimal.Decimal) else -math.inf < value < math.inf
+        if not is_finite:
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+
+    def _check_lexical(self, value):
+        value = value.strip(' \t\r\n')
+        if self.LEXICAL_REGEX.fullmatch(value) is None:
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+        return value
+
     def accept(self, value):
         if value is None:
             return None
         elif isinstance(value, decimal.Decimal):
+            self._check_number(value)
             self._check_restrictions(value)
             return str(value)
         elif isinstance(value, (float, int)):
             pass  # value is just value
         elif isinstance(value, str):
-            value = float(value)
+            value = float(self._check_lexical(value))
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
+        self._check_number(value)
         self._check_restrictions(value)
         return value
 
     def xmlvalue(self, value):
-        return str(value)
+        text = str(value)
+        # xsd:decimal has no exponents
+        return format(decimal.Decimal(text), 'f') if 'e' in text.lower() else text
 
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
@@ -441,6 +459,8 @@ class Decimal(SimpleType):
 
 
 class Double(Decimal):
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|-?INF|NaN')
+
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -448,8 +468,15 @@ class Double(Decimal):
             minInclusive=minInclusive, pattern=pattern,
         )
 
+    def _check_number(self, value):
+        pass  # infinities and NaN are values as well
+
+    def xmlvalue(self, value):
+        text = str(value)
+        return {'inf': 'INF', 'Infinity': 'INF', '-inf': '-INF', '-Infinity': '-INF', 'nan': 'NaN'}.get(text, text)
+
 
-class Float(Decimal):
+class Float(Double):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -459,6 +486,7 @@ class Float(Decimal):
 
 
 class Integer(Decimal):
+    LEXICAL_REGEX = re.compile('[-+]?[0-9]+')
     overrides = {'fractionDigits': 0, 'pattern': r'[-+]?[0-9]+'}
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
@@ -484,7 +512,7 @@ class Integer(Decimal):
         elif isinstance(value, int):
             pass  # value is just value continue.
         elif isinstance(value, str):
-            value = int(value)
+            value = int(self._check_lexical(value))
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
-- 
2.43.0


From eaa7b2a777f26088b52f0f1291ecd6cba6c771a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 47/73] fix: schemas for types derived from types with
 exclusive bounds are valid

---
 soapfish/py2xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 8c21bba..20bd88a 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -44,10 +44,12 @@ def add_facets(restriction, _type):
     if pattern is not None:
         restriction.pattern = xsdspec.Pattern(value=str(pattern))
 
+    # some facets must not be repeated in derived types.
+    base = _type.__bases__[0] if inspect.isclass(_type) else _type.__class__()
     for facet in ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits',
                   'length', 'minLength', 'maxLength', 'whiteSpace'):
         value = getattr(_type, facet, None)
-        if value is not None:
+        if value is not None and str(value) != str(getattr(base, facet, None)):
             setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
 
 
-- 
2.43.0


From f2d8f3becc982361ebbf7969f14e883e59f94726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 48/73] fix: generated schemas have the members of groups

---
 soapfish/py2xsd.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 20bd88a..e2016de 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -88,14 +88,29 @@ def create_xsd_element(element):
     return xsd_element
 
 
+def get_fields(complexType):
+    """Return the elements and attributes of a class, those of groups take the place of the reference."""
+    fields = []
+    for field in complexType._meta.all:
+        if isinstance(field, xsd.Ref):
+            field._evaluate_type()
+            if isinstance(field._type, xsd.Group):
+                fields.extend(get_fields(field._type))
+        else:
+            fields.append(field)
+    return fields
+
+
 def xsd_complexType(complexType, named=True):
     xsd_ct = xsdspec.XSDComplexType()
     if named:
         xsd_ct.name = uncapitalize(complexType.__name__)
 
-    for attribute in complexType._meta.attributes:
-        xsd_attr = xsd_attribute(attribute)
-        xsd_ct.attributes.append(xsd_attr)
+    fields = get_fields(complexType)
+    for attribute in fields:
+        if isinstance(attribute, xsd.Attribute):
+            xsd_attr = xsd_attribute(attribute)
+            xsd_ct.attributes.append(xsd_attr)
 
     # Elements can be wrapped with few type of containers:
     # sequence, all, choice or it can be a complexContent with
@@ -107,7 +122,9 @@ def xsd_complexType(complexType, named=True):
     else:
         container = xsd_ct
 
-    for element in complexType._meta.fields:
+    for element in fields:
+        if isinstance(element, xsd.Attribute):
+            continue
         for element_ in element.xsd_elements():
             if element_._type is None:
                 # The type must be known in order to generate a valid schema. The
-- 
2.43.0


From fe7f9cee19f31a1726a89c2dc88c7baec34afd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 49/73] fix: requests without an addressing action can be
 answered

---
 soapfish/wsa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/wsa.py b/soapfish/wsa.py
index 80eca05..d0d2774 100644
--- a/soapfish/wsa.py
+++ b/soapfish/wsa.py
@@ -38,7 +38,8 @@ XML_SCHEMA = etree.XMLSchema(XSD_SCHEMA)
 def fill_header(dst_header, src_header=None):
     """Fill dst_header with the basic information based on src_header."""
     if src_header:
-        dst_header.Action = src_header.Action + 'Response'
+        if src_header.Action is not None:
+            dst_header.Action = src_header.Action + 'Response'
         dst_header.RelatesTo = src_header.MessageID
     dst_header.MessageID = str(uuid.uuid1())
     dst_header.To = ANONYMOUS
-- 
2.43.0


From e274f7b24359192180e80810f8d7552a60ecbb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 50/73] fix: locations in imported WSDL and remote documents
 are relative to these documents

---
 soapfish/utils.py   | 12 ++++++------
 soapfish/wsdl2py.py |  8 +++++---
 soapfish/xsd2py.py  |  2 +-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 7186d31..db758f2 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -5,7 +5,7 @@ import logging
 import os
 import re
 from datetime import datetime, timedelta, timezone
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse, urlunparse
 
 import requests
 from jinja2 import Environment, PackageLoader
@@ -17,13 +17,13 @@ logger = logging.getLogger('soapfish')
 
 # --- File Functions ----------------------------------------------------------
 def resolve_location(path, cwd):
-    if '://' in path:
-        location = path
+    if '://' in path or '://' in cwd:
+        # remote files must handle paths as url.
+        location = path = path if '://' in path else urljoin(cwd.rstrip('/') + '/', path)
     else:
-        path = os.path.join(cwd, path)
+        path = os.path.normpath(os.path.join(cwd, path))
         location = os.path.relpath(path, cwd)
-        cwd = os.path.dirname(path)
-    return path, cwd, location
+    return path, os.path.dirname(path), location
 
 
 def open_document(path):
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index ddc389d..d538cce 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -46,7 +46,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         seen = set()
 
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, imported_cwd, location = resolve_location(i.location, cwd)
 
         if path in seen:
             continue
@@ -61,9 +61,11 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=imported_cwd, seen=seen)
 
         if imported.types and imported.types.schemas:
+            for schema in imported.types.schemas:
+                rewrite_paths(schema, imported_cwd, cwd)
             if not definitions.types:
                 definitions.types = wsdl.Types()
             definitions.types.schemas = deduplicate(imported.types.schemas + definitions.types.schemas)
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index d9fd6c8..051a906 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -30,7 +30,7 @@ def rewrite_paths(schema, cwd, base_path):
             continue
         elif '://' in cwd:
             # remote files must handle paths as url.
-            i.schemaLocation = urljoin(cwd, i.schemaLocation)
+            i.schemaLocation = urljoin(cwd.rstrip('/') + '/', i.schemaLocation)
         else:
             # local files should handle relative paths.
             path = os.path.normpath(os.path.join(cwd, i.schemaLocation))
-- 
2.43.0


From 65830b41d7c8f2cefdf93f10d6f4b688433d0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 51/73] fix: included schemas without a namespace belong to
 that of the including schema

---
 soapfish/xsd2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 051a906..fdb2bb6 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -72,8 +72,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
-                        standalone=standalone)
+                        location, parent_namespace, cwd=cwd,
+                        base_path=base_path, standalone=standalone)
 
     return code.encode(encoding) if encoding else code
 
-- 
2.43.0


From 1b2e1fec873f181ece10fee515bdfbfb769966a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 52/73] fix: schemas of a WSDL document share types and
 included files

---
 soapfish/wsdl2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index d538cce..c3b33c4 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -93,7 +93,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_paths': [], 'known_types': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
-- 
2.43.0


From fcaa5fd3ca0be4b7e458f45953bfde2925ffa727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 53/73] fix: order schemas after all those of an imported
 namespace

---
 soapfish/wsdl2py.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index c3b33c4..2d33485 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -18,19 +18,17 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
-    known = {schema.targetNamespace for schema in schemas}
-    schemas, targets, x = [], set(), collections.deque(schemas)
+    schemas, x = [], collections.deque(schemas)
     counter = len(x)
     while x and counter > 0:
         schema = x.popleft()
         # only wait for schemas which are still to come.
-        ns = {i.namespace for i in schema.imports} & known - {schema.targetNamespace}
-        if ns - targets:
+        ns = {i.namespace for i in schema.imports} & {i.targetNamespace for i in x} - {schema.targetNamespace}
+        if ns:
             counter -= 1
             x.append(schema)
         else:
             schemas.append(schema)
-            targets.add(schema.targetNamespace)
             counter = len(x)
     schemas.extend(x)  # always add remaining unorderable schemas...
     return schemas
-- 
2.43.0


From cfb7f48f0998161866f6604ae762c3ff57d26af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 54/73] fix: generate simple types after those they restrict

---
 soapfish/xsd2py.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index fdb2bb6..a083d91 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -78,25 +78,36 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
-def _reorder_complexTypes(schema):
-    """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    types = {complex_type.name: complex_type for complex_type in schema.complexTypes}
+def _reorder_types(types, get_base):
+    """Reorder types to render base extension/restriction elements render before the children."""
+    known = {t.name: t for t in types}
     order = {}
 
-    def add(complex_type, children=()):
-        if complex_type.name in order or complex_type.name in children:
+    def add(t, children=()):
+        if t.name in order or t.name in children:
             return
-        content = complex_type.complexContent
-        inherited = content and (content.extension or content.restriction)
-        base = types.get(remove_namespace(inherited.base)) if inherited else None
+        base = known.get(remove_namespace(get_base(t)))
         if base is not None:
-            add(base, children + (complex_type.name,))
-        order[complex_type.name] = len(order)
+            add(base, children + (t.name,))
+        order[t.name] = len(order)
+
+    for t in types:
+        add(t)
+
+    types.sort(key=lambda t: order[t.name])
+
 
-    for complex_type in schema.complexTypes:
-        add(complex_type)
+def _reorder_simpleTypes(schema):
+    _reorder_types(schema.simpleTypes, lambda t: t.restriction and t.restriction.base)
+
+
+def _reorder_complexTypes(schema):
+    def get_base(t):
+        content = t.complexContent
+        inherited = content and (content.extension or content.restriction)
+        return inherited and inherited.base
 
-    schema.complexTypes.sort(key=lambda complex_type: order[complex_type.name])
+    _reorder_types(schema.complexTypes, get_base)
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -108,6 +119,7 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
+    _reorder_simpleTypes(schema)
     _reorder_complexTypes(schema)
 
     if known_paths is None:
-- 
2.43.0


From 4db0d0639a283fdd3b2e3c4ca3b571ad87355208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 55/73] fix: generated schemas name the head of substitution
 groups

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index eaa8d46..6141c80 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup='{{ e.substitutionGroup|remove_namespace }}'{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
-- 
2.43.0


From dd8c2d9e5f1f394777d16013c87ed21d4dbb597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 56/73] fix: generate derived types defined within elements

---
 soapfish/templates/lib.jinja2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 6141c80..5de656c 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -80,11 +80,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
-- 
2.43.0


From 1e5eb99aacd57d0482255bdcc83f127437e97acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 57/73] fix: lists need one item unless a schema says otherwise

---
 soapfish/templates/lib.jinja2 | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 5de656c..2f42353 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -111,7 +111,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
-    {{ render_xsd_element(element, known_types) }}
+    {{ render_xsd_element(element, known_types, content.choice) }}
 {%- endfor %}
 {%- if content.sequence %}
 {{ render_create_method(elements, known_types) }}
@@ -120,17 +120,18 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {# blank line #}
 {%- endmacro %}
 
-{% macro render_element_arguments(element) -%}
-{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
+{% macro render_element_arguments(element, is_option=false) -%}
+{%- set is_list = element.maxOccurs and element.maxOccurs > 1 -%}
+{% if element.name in keywords or is_list %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% elif is_list and not is_option %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
 {%- endmacro %}
 
-{% macro render_xsd_element(element, known_types=None) -%}
+{% macro render_xsd_element(element, known_types=None, is_option=false) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_element_arguments(element) }})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_element_arguments(element, is_option) }})
     {%- endif %}
     {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}({% for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %}){{ render_element_arguments(element) }})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}({% for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %}){{ render_element_arguments(element, is_option) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From 60a92e66fc77882314a8a038a81aefc8fd9c2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 58/73] fix: generate Python names for all XML names

---
 soapfish/templates/lib.jinja2 | 12 ++++++------
 soapfish/utils.py             | 14 +++++++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 2f42353..d1f03b2 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -105,10 +105,10 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
     {{ render_xsd_element(element, known_types, content.choice) }}
@@ -122,7 +122,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 
 {% macro render_element_arguments(element, is_option=false) -%}
 {%- set is_list = element.maxOccurs and element.maxOccurs > 1 -%}
-{% if element.name in keywords or is_list %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% elif is_list and not is_option %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
+{% if element.name|fix_keyword != element.name or is_list %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% elif is_list and not is_option %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
 {%- endmacro %}
 
 {% macro render_xsd_element(element, known_types=None, is_option=false) -%}
@@ -134,7 +134,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}({% for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %}){{ render_element_arguments(element, is_option) }})
     {%- endif %}
     {%- if element.ref %}
-    {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
+    {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
     {%- endif %}
 {%- endmacro %}
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index db758f2..a27e56d 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -82,8 +82,15 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     """Return a rendering environment to use with code generation templates."""
     from . import soap, xsd, xsdspec, wsdl
 
+    keywords = set(keyword.kwlist)
+
+    def fix_keyword(value):
+        """Return the name to use in Python, XML allows some more characters."""
+        value = re.sub(r'^[\W_]{2,}|\W', '_', str(value))
+        return f'_{value}' if value in keywords else value
+
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        return fix_keyword(value[0].upper() + value[1:])
 
     def use(value):
         from . import xsd
@@ -156,8 +163,6 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
                 result.append((name, f"r'{value}'" if is_raw else repr(value)))
         return result
 
-    keywords = set(keyword.kwlist)
-
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
         loader=PackageLoader('soapfish', 'templates'),
@@ -165,7 +170,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         facets=facets,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        fix_keyword=fix_keyword,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
         type=get_type,
@@ -176,7 +181,6 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.globals.update(
         SOAPTransport=soap.SOAP_HTTP_Transport,
-        keywords=keywords,
         get_by_name=wsdl.get_by_name,
         get_message_header=wsdl.get_message_header,
         get_message_object=wsdl.get_message_object,
-- 
2.43.0


From 067f3591a4f7d1369a1e409951453276cf9e4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 59/73] fix: generated strings may have quotes

---
 soapfish/templates/lib.jinja2 | 4 ++--
 soapfish/utils.py             | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index d1f03b2..8457408 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,9 +15,9 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|string_literal }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
+    location={{ location|url_template|string_literal }},{% endif %}
     elementFormDefault='{{ schema.elementFormDefault }}',
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
diff --git a/soapfish/utils.py b/soapfish/utils.py
index a27e56d..d55d029 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -173,6 +173,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         fix_keyword=fix_keyword,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
+        string_literal=lambda x: repr(str(x)),
         type=get_type,
         url_component=url_component,
         url_regex=url_regex,
-- 
2.43.0


From ec77c9dc7085dbd16399422e023b9c75dbed674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 60/73] fix: create methods may have arguments called cls and
 instance

---
 soapfish/templates/lib.jinja2 | 4 ++--
 soapfish/utils.py             | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 8457408..9675509 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -141,12 +141,12 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_create_method(elements, known_types=None) -%}
 {# [blank line] #}
     @classmethod
-    def create(cls{% for e in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ e.ref|remove_namespace|fix_keyword if e.ref else e.name|fix_keyword }}{% endif %}{% endfor %}):
+    def create(cls{% for e in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ (e.ref|remove_namespace if e.ref else e.name)|argument }}{% endif %}{% endfor %}):
         instance = cls()
         {%- for element in elements %}
         {%- if element.minOccurs is not none and element.minOccurs != 1 %}{% continue %}{% endif %}
         {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-        instance.{{ name|fix_keyword }} = {{ name|fix_keyword }}
+        instance.{{ name|fix_keyword }} = {{ name|argument }}
         {%- endfor %}
         return instance
 {%- endmacro %}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index d55d029..a6b9fe6 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -89,6 +89,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         value = re.sub(r'^[\W_]{2,}|\W', '_', str(value))
         return f'_{value}' if value in keywords else value
 
+    def argument(value):
+        """Return the name to use for an argument of a create method which has variables of its own."""
+        value = fix_keyword(value)
+        return f'_{value}' if value in ('cls', 'instance') else value
+
     def capitalize(value):
         return fix_keyword(value[0].upper() + value[1:])
 
@@ -168,6 +173,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         loader=PackageLoader('soapfish', 'templates'),
     )
     env.filters.update(
+        argument=argument,
         capitalize=capitalize,
         facets=facets,
         fix_keyword=fix_keyword,
-- 
2.43.0


From af8151ff16843d7580245ef0efda80482bb17835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 61/73] fix: generate elements with a simple type of their own

---
 soapfish/templates/lib.jinja2 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 9675509..f78409a 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup='{{ e.substitutionGroup|remove_namespace }}'{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% elif e.simpleType %}{{ render_inline_type(e.simpleType, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup='{{ e.substitutionGroup|remove_namespace }}'{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -125,13 +125,17 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% if element.name|fix_keyword != element.name or is_list %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% elif is_list and not is_option %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
 {%- endmacro %}
 
+{% macro render_inline_type(simpleType, known_types=None) -%}
+{{ simpleType.restriction|type(known_types) }}({% for facet, value in simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %})
+{%- endmacro %}
+
 {% macro render_xsd_element(element, known_types=None, is_option=false) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_element_arguments(element, is_option) }})
     {%- endif %}
     {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}({% for facet, value in element.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %}){{ render_element_arguments(element, is_option) }})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_inline_type(element.simpleType, known_types) }}{{ render_element_arguments(element, is_option) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From c1a36abbefb5fa16f7f093e406a8142d411d12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 62/73] fix: names in generated WSDL documents refer to the
 right schema

---
 soapfish/py2wsdl.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..197cb89 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -17,6 +17,26 @@ logger = logging.getLogger('soapfish')
 
 
 # --- Helpers -----------------------------------------------------------------
+def schema_prefixes(service):
+    """Return the prefixes of the namespaces of the schemas."""
+    namespaces = dict.fromkeys(schema.targetNamespace for schema in service.schemas)
+    return {namespace: f'sns{i or ""}' for i, namespace in enumerate(namespaces)}
+
+
+def schema_qname(service, name, namespace):
+    return f"{schema_prefixes(service).get(namespace, 'sns')}:{name}"
+
+
+def set_content(service, part, content):
+    """Set the element or type of a message part."""
+    if isinstance(content, str):
+        element = service.find_element_by_name(content)
+        part.element = schema_qname(service, content, element.namespace if element else None)
+    else:
+        schema = getattr(content, 'SCHEMA', None)
+        part.type = schema_qname(service, uncapitalize(content.__name__), schema and schema.targetNamespace)
+
+
 def build_service(wsdl, definitions, service):
     wsdl_port = wsdl.Port()
     wsdl_port.name = service.name + 'Port'
@@ -69,19 +89,13 @@ def build_messages(wsdl, definitions, service):
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
         part = wsdl.Part(name='body')
-        if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
-        else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
+        set_content(service, part, method.input)
         inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
         part = wsdl.Part(name='body')
-        if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
-        else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
+        set_content(service, part, method.output)
         outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
@@ -103,8 +117,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{prefix: namespace for namespace, prefix in schema_prefixes(service).items()},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
@@ -117,6 +130,15 @@ def generate_wsdl(service):
                        namespace=ns.wsdl,
                        elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
 
+    # the names in a schema refer to its own namespace.
+    types = xmlelement.find('{%s}types' % ns.wsdl)
+    for node, schema in zip(types, service.schemas):
+        for element in node.iter():
+            for name in ('base', 'substitutionGroup', 'type'):
+                prefix, _, value = element.get(name, '').partition(':')
+                if prefix == 'sns':
+                    element.set(name, schema_qname(service, value, schema.targetNamespace))
+
     return xmlelement
 
 
-- 
2.43.0


From c2181e07926d5eefa59452d75c58642e96d24dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 63/73] fix: generated service code may have quotes in actions
 and addresses

---
 soapfish/templates/wsdl.jinja2 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..24cd7a2 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -71,7 +71,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction={{ operation.operation.soapAction|string_literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input='{{ _im.part.element|remove_namespace }}',
@@ -108,8 +108,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {{ port.name }}_SERVICE = soap.Service(
     name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    targetNamespace={{ definitions.targetNamespace|string_literal }},
+    location={{ port.address.location|url_template|string_literal }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
@@ -140,8 +140,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 class {{ port.name }}ServiceStub(soap.Stub):
     SERVICE = {{ port.name }}_SERVICE
-    SCHEME = '{{ port.address.location|url_component('scheme') }}'
-    HOST = '{{ port.address.location|url_component('netloc') }}'
+    SCHEME = {{ port.address.location|url_component('scheme')|string_literal }}
+    HOST = {{ port.address.location|url_component('netloc')|string_literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
     def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-- 
2.43.0


From 633503513018594b293870ea87c6ce6d9c3e23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 64/73] fix: operations without a SOAP action have none in
 generated code

---
 soapfish/templates/wsdl.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 24cd7a2..4a8cec4 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -71,7 +71,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction={{ operation.operation.soapAction|string_literal }},
+    soapAction={{ (operation.operation.soapAction or '')|string_literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input='{{ _im.part.element|remove_namespace }}',
-- 
2.43.0


From ff22f633440ebe5244c7d62507f4ec8556f56f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 65/73] fix: generate functions for messages given by type

---
 soapfish/templates/wsdl.jinja2 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 4a8cec4..26345ad 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name }}(request, {{ _im.part.element|remove_namespace or _im.part.name }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return {{ _om.part.element|remove_namespace or _om.part.name }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -144,8 +144,8 @@ class {{ port.name }}ServiceStub(soap.Stub):
     HOST = {{ port.address.location|url_component('netloc')|string_literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace or _im.part.name }}, header=None):
+        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace or _im.part.name }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
-- 
2.43.0


From 85aaeb63c2bc4537dcb6996109f08b77fe24b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 66/73] fix: operations, ports and messages of any name give
 code that works

---
 soapfish/templates/lib.jinja2  |  4 ++--
 soapfish/templates/wsdl.jinja2 | 38 +++++++++++++++++-----------------
 soapfish/utils.py              |  6 +++---
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index f78409a..d9257e0 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -145,12 +145,12 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_create_method(elements, known_types=None) -%}
 {# [blank line] #}
     @classmethod
-    def create(cls{% for e in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ (e.ref|remove_namespace if e.ref else e.name)|argument }}{% endif %}{% endfor %}):
+    def create(cls{% for e in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ (e.ref|remove_namespace if e.ref else e.name)|argument('cls', 'instance') }}{% endif %}{% endfor %}):
         instance = cls()
         {%- for element in elements %}
         {%- if element.minOccurs is not none and element.minOccurs != 1 %}{% continue %}{% endif %}
         {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-        instance.{{ name|fix_keyword }} = {{ name|argument }}
+        instance.{{ name|fix_keyword }} = {{ name|argument('cls', 'instance') }}
         {%- endfor %}
         return instance
 {%- endmacro %}
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 26345ad..67083f4 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace or _im.part.name }}):
+def {{ operation.name|fix_keyword }}(request, {{ (_im.part.element|remove_namespace or _im.part.name)|argument('request') }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace or _om.part.name }}
+    return {{ (_om.part.element|remove_namespace or _om.part.name)|fix_keyword }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -45,31 +45,31 @@ def {{ operation.name }}(request, {{ _im.part.element|remove_namespace or _im.pa
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
-class {{ _im.name }}Headers(BaseHeader):
+class {{ (_im.name ~ 'Headers')|fix_keyword }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
-class {{ _om.name }}Headers(BaseHeader):
+class {{ (_om.name ~ 'Headers')|fix_keyword }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif %}
-{{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+{{ (operation.name ~ '_method')|fix_keyword }} = xsd.Method(
+    {% if is_server %}function={{ operation.name|fix_keyword }},
     {% endif -%}
     soapAction={{ (operation.operation.soapAction or '')|string_literal }},
     {%- if _im.parts -%}
@@ -81,7 +81,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ _im.name }}Headers,
+    input_header={{ (_im.name ~ 'Headers')|fix_keyword }},
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
@@ -92,7 +92,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ _om.name }}Headers,
+    output_header={{ (_om.name ~ 'Headers')|fix_keyword }},
     {%- endif %}
     operationName='{{ operation.name }}',
     {%- if operation.operation.style %}
@@ -106,7 +106,7 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service
 {# [blank line] #}
 {# [blank line] #}
-{{ port.name }}_SERVICE = soap.Service(
+{{ (port.name ~ '_SERVICE')|fix_keyword }} = soap.Service(
     name='{{ port.name }}',
     targetNamespace={{ definitions.targetNamespace|string_literal }},
     location={{ port.address.location|url_template|string_literal }},
@@ -116,7 +116,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
-    methods=[{% for o in binding.operations %}{{ o.name }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
+    methods=[{% for o in binding.operations %}{{ (o.name ~ '_method')|fix_keyword }}{% if not loop.last %}, {% endif %}{% endfor %}],
 )
 {# [blank line] #}
 {# [blank line] #}
@@ -126,7 +126,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Uncomment the following lines to turn on dispatching for Django:
 # from soapfish.django_ import django_dispatcher
-# dispatcher = django_dispatcher({{ port.name }}_SERVICE)
+# dispatcher = django_dispatcher({{ (port.name ~ '_SERVICE')|fix_keyword }})
 {# [blank line] #}
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
@@ -138,14 +138,14 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service Stub
 {# [blank line] #}
 {# [blank line] #}
-class {{ port.name }}ServiceStub(soap.Stub):
-    SERVICE = {{ port.name }}_SERVICE
+class {{ (port.name ~ 'ServiceStub')|fix_keyword }}(soap.Stub):
+    SERVICE = {{ (port.name ~ '_SERVICE')|fix_keyword }}
     SCHEME = {{ port.address.location|url_component('scheme')|string_literal }}
     HOST = {{ port.address.location|url_component('netloc')|string_literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace or _im.part.name }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace or _im.part.name }}, header=header)
+    def {{ operation.name|fix_keyword }}(self, {{ (_im.part.element|remove_namespace or _im.part.name)|argument('self', 'header') }}, header=None):
+        return super().call('{{ operation.name }}', {{ (_im.part.element|remove_namespace or _im.part.name)|argument('self', 'header') }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index a6b9fe6..df90f41 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -89,10 +89,10 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         value = re.sub(r'^[\W_]{2,}|\W', '_', str(value))
         return f'_{value}' if value in keywords else value
 
-    def argument(value):
-        """Return the name to use for an argument of a create method which has variables of its own."""
+    def argument(value, *reserved):
+        """Return the name to use for an argument of a function which has variables of its own."""
         value = fix_keyword(value)
-        return f'_{value}' if value in ('cls', 'instance') else value
+        return f'_{value}' if value in reserved else value
 
     def capitalize(value):
         return fix_keyword(value[0].upper() + value[1:])
-- 
2.43.0


From 3610098353840eef8b648587423cd712638d8bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 67/73] fix: addresses may have dollar signs in generated code

---
 soapfish/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index df90f41..f4ec216 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -118,7 +118,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             raise ValueError(f'Unknown URL component: {item}') from e
 
     def url_template(url):
-        o = list(urlparse(url))
+        o = [x.replace('$', '$$') for x in urlparse(url)]
         o[0:2] = ['${scheme}', '${host}']
         return urlunparse(o)
 
-- 
2.43.0


From 86a53dafe6e62c58a98b596da45bd96ed3f769e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 68/73] fix: header blocks have the name of the element, not of
 the message part

---
 soapfish/xsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 423bdd6..aee485a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1194,7 +1194,10 @@ class Schema:
         self.__init_schema(self.attributeGroups)
         self.__init_schema(self.complexTypes)
 
-        for element in self.elements.values():
+        for name, element in self.elements.items():
+            if element.tagname is None:
+                # fields of other names can refer to the element.
+                element.tagname = name
             if isinstance(element._passed_type, ComplexType):
                 element._passed_type.__class__.SCHEMA = self
             if element.namespace is None:
-- 
2.43.0


From b5cf87bdc01ee0ad2da4b5d8eaffdda776aaaf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 69/73] fix: generated code refers to schemas only once they
 are defined

---
 soapfish/templates/lib.jinja2 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index d9257e0..a9e6141 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -13,8 +13,8 @@
 
 {% macro render_Schema(schema, location, known_types=None) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    imports=[{% for i in schema.imports if ('Schema_' ~ schema_name(i)) in known_types %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    includes=[{% for i in schema.includes if ('Schema_' ~ schema_name(i)) in known_types %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|string_literal }},
     {%- if location %}
     location={{ location|url_template|string_literal }},{% endif %}
@@ -29,7 +29,10 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
 {# [blank line] #}
 # XXX: Workaround for naming issues related to relative locations!
 Schema_{{ schema_name(schema, location) }} = Schema_{{ schema_name(schema) }}
+{%- do known_types.append('Schema_' ~ schema_name(schema, location)) %}
 {%- endif %}
+{#- Schemas which are not defined yet, or not at all, cannot be referred to. #}
+{%- do known_types.append('Schema_' ~ schema_name(schema)) %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
-- 
2.43.0


From d3cec77f92e324820aeb7b053739176adc3dd179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 70/73] fix: content types carry actions in any letter case

---
 soapfish/soap12.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index e84dbd0..f1413dd 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -11,7 +11,7 @@ NAME = 'soap12'
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
     ct, cp = cgi.parse_header(request.environ.get('CONTENT_TYPE', ''))
-    return cp.get('action') if ct == CONTENT_TYPE else None
+    return cp.get('action') if ct.lower() == CONTENT_TYPE else None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From 1e6a678d1d5659f50096c25c826bcdfa20a22ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 71/73] fix: an empty pattern of a string admits the empty text
 only

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index aee485a..ec3031f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -154,7 +154,7 @@ class String(SimpleType):
 
         value = self._clean_whitespace(value)
 
-        if self.pattern:
+        if self.pattern is not None:
             if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
-- 
2.43.0


From bf12a695a06e4e4f6936931ff2e7e3251401f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 72/73] fix: dateTime and time values lost their fractions of a
 second when written

---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ec3031f..6c0179f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -226,6 +226,10 @@ class Boolean(SimpleType):
             raise ValueError(f'Boolean value error - {value}')
 
 
+def fraction_of_second(value):
+    return f'.{value.microsecond:06d}' if value.microsecond else ''
+
+
 class Date(SimpleType):
     # Example text value: 2001-10-26+02:00
     # Does currently not support any constraining facets:
@@ -303,7 +307,7 @@ class DateTime(SimpleType):
         if value is None:
             return 'nil'
         # strftime('%Y') does not pad years before 1000 to four digits on every platform
-        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%dT%H:%M:%S')
+        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%dT%H:%M:%S') + fraction_of_second(value)
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
@@ -328,7 +332,7 @@ class Time(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%H:%M:%S')
+        timestring_without_tz = value.strftime('%H:%M:%S') + fraction_of_second(value)
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
-- 
2.43.0


From 8d2573bbcaae5580ad27c8046f64bbc24637e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 73/73] fix: fields with a type given by name failed when two
 threads used them first at the same time

---
 soapfish/xsd.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6c0179f..9f68cbe 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -638,12 +638,11 @@ class Element:
 
     def _evaluate_type(self):
         if self._type is None:
-            if isinstance(self._passed_type, str):
-                self._passed_type = import_type(self._passed_type)
-            if isinstance(self._passed_type, Type):
-                self._type = self._passed_type
-            else:
-                self._type = self._passed_type()
+            # Another thread may evaluate the same type at the same time.
+            _type = self._passed_type
+            if isinstance(_type, str):
+                _type = self._passed_type = import_type(_type)
+            self._type = _type if isinstance(_type, Type) else _type()
 
     def empty_value(self):
         """
-- 
2.43.0

