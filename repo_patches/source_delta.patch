From 250f15da9cf82c5fb7e238743e05dc01a74ae009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 01/37] fix: designators give an empty bag when the request has
 no action or environment

---
 ndg/xacml/core/attributedesignator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/attributedesignator.py b/ndg/xacml/core/attributedesignator.py
index ec55ed1..ed92164 100644
--- a/ndg/xacml/core/attributedesignator.py
+++ b/ndg/xacml/core/attributedesignator.py
@@ -305,7 +305,8 @@ class ActionAttributeDesignator(AttributeDesignator):
                                         attr.dataType == dataType and
                                         _issuerMatch(attr.issuer))
                     
-        for attr in action.attributes:
+        # The request may have no action set: it then holds no attributes
+        for attr in action.attributes if action is not None else ():
             if _attributeMatch(attr):
                 attributeValueBag.extend([i for i in attr.attributeValues
                                           if i.dataType == dataType])
@@ -359,7 +360,8 @@ class EnvironmentAttributeDesignator(AttributeDesignator):
                                         attr.dataType == dataType and
                                         _issuerMatch(attr.issuer))
                  
-        for attr in environment.attributes:
+        # The request may have no environment set: it then holds no attributes
+        for attr in environment.attributes if environment is not None else ():
             if _attributeMatch(attr):
                 attributeValueBag.extend([i for i in attr.attributeValues
                                           if i.dataType == dataType])
-- 
2.43.0


From 8b88e061f0466f148245d207cfb9167a8c3677a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 02/37] fix: a condition which isn't boolean is an error
 instead of being applied by its truth value

---
 ndg/xacml/core/condition.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ndg/xacml/core/condition.py b/ndg/xacml/core/condition.py
index fde03c8..2623857 100644
--- a/ndg/xacml/core/condition.py
+++ b/ndg/xacml/core/condition.py
@@ -11,6 +11,7 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core import XacmlCoreBase
 from ndg.xacml.core.expression import Expression
+from ndg.xacml.core.attributevalue import AttributeValue
 
 
 class Condition(XacmlCoreBase):
@@ -66,7 +67,17 @@ class Condition(XacmlCoreBase):
         @return: True/False status for whether the rule condition matched or
         not
         @rtype: bool
+        @raise TypeError: expression doesn't evaluate to a boolean
         """
         result = self.expression.evaluate(context)
         
+        # An XACML boolean attribute value stands for the value it holds
+        if (isinstance(result, AttributeValue) and 
+            result.dataType == AttributeValue.BOOLEAN_TYPE_URI):
+            result = result.value
+            
+        if not isinstance(result, bool):
+            raise TypeError('Expecting %r type result from condition '
+                            'expression; got %r' % (bool, type(result)))
+        
         return result
\ No newline at end of file
-- 
2.43.0


From 3c17d6f0e0bb65ba24b44c37ff7d434d1cc0349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 03/37] fix: TypedList.extend and += keep the items of
 generators

---
 ndg/xacml/utils/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 79be001..519af79 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -85,6 +85,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Take a copy: an iterator can only be gone through once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
@@ -98,6 +100,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # Take a copy: an iterator can only be gone through once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
-- 
2.43.0


From efd1a8530fa1ff640ba4ef7b6d39e69e379b8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 04/37] fix: TypedList checks the type of items passed to the
 constructor, insert and item assignment

---
 ndg/xacml/utils/__init__.py | 40 +++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 519af79..eb6b687 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -61,6 +61,46 @@ class TypedList(list):
         """
         self.__elementType = elementType
         super(TypedList, self).__init__(*arg, **kw)
+        for i in self:
+            self._verifyItem(i)
+
+    def _verifyItem(self, item):
+        """Check an item is of the type for this list
+        @param item: item to check
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if not isinstance(item, self.__elementType):
+            raise TypeError("List items must be of type %s" % 
+                            (self.__elementType,))
+
+    def insert(self, index, item):
+        """Insert an item before the given index
+        @param index: position for the new item
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        self._verifyItem(item)
+        return super(TypedList, self).insert(index, item)
+
+    def __setitem__(self, index, value):
+        """Replace an item or a slice of items
+        @param index: position or slice to replace
+        @type index: int / slice
+        @param value: new item, or iterable of new items for a slice
+        @type value: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if isinstance(index, slice):
+            value = list(value)
+            for i in value:
+                self._verifyItem(i)
+        else:
+            self._verifyItem(value)
+            
+        return super(TypedList, self).__setitem__(index, value)
 
     def __repr__(self):
         """@return: represent instance giving type information about the 
-- 
2.43.0


From 8f1fb3519bc0f10bc7a4b668dd5ecd823c8ea50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 05/37] fix: UniqList leaves out duplicates within the input
 itself

---
 ndg/xacml/utils/__init__.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index eb6b687..00b9f5f 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -20,20 +20,29 @@ class UniqList(list):
     from the list
     """
     
+    def __init__(self, iter=()):
+        """Initialise with the distinct items of the input iterable
+        @param iter: iterable object
+        @type iter: iterable type
+        """
+        super(UniqList, self).__init__()
+        self.extend(iter)
+    
     def extend(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).extend([i for i in iter if i not in self])
+        for i in iter:
+            self.append(i)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).__iadd__([i for i in iter 
-                                               if i not in self])
+        self.extend(iter)
+        return self
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From 0c2e31c190accd7e8330fac72d058d2591648279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 06/37] fix: VettedDict.get returns the default value

---
 ndg/xacml/core/functions/__init__.py | 2 +-
 ndg/xacml/utils/__init__.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 0a62e6e..f151eba 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -749,7 +749,7 @@ class FunctionMap(VettedDict):
         @return: function class
         @rtype: ndg.xacml.core.functions.AbstractFunction / NotImplemented
         """
-        functionClass = VettedDict.get(self, key, *arg)
+        functionClass = VettedDict.get(self, key)
         if functionClass is None:
             self.loadFunction(key)
             return VettedDict.get(self, key, *arg)    
diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 00b9f5f..6b368a5 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -293,9 +293,9 @@ class VettedDict(MutableMapping):
         if key in self.__map:
             return self.__map[key]
         
-        elif len(arg) > 1:
+        elif len(arg) > 0:
             # Default value set
-            return arg[1]
+            return arg[0]
         else:
             return None
           
-- 
2.43.0


From 6ec722acdb3b88112ae1a7613e8c6647dfdddf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 07/37] fix: RestrictedKeyNamesDict rejects bad keys with
 KeyError in update, |= and setdefault

---
 ndg/xacml/utils/__init__.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 6b368a5..7ca164f 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -205,9 +205,27 @@ class RestrictedKeyNamesDict(dict):
                 if k not in self.__keyNames:
                     raise KeyError('Key name "%s" not recognised.  Valid '
                                    'key names are: %s' % 
-                                   self.__keyNames)
+                                   (k, self.__keyNames))
         
         dict.update(self, d, **kw)
+
+    def __ior__(self, d):
+        """@param d: dictionary to update from
+        @type d: dict
+        """
+        self.update(d)
+        return self
+
+    def setdefault(self, key, default=None):
+        """@param key: key for item to get, or to set if it isn't present
+        @type key: any
+        @param default: value to set for this key if it isn't present
+        @type default: any
+        """
+        if key not in self:
+            self[key] = default
+            
+        return self[key]
         
 
 _isIterable = lambda obj: getattr(obj, '__iter__', False)
-- 
2.43.0


From 6c6c475b50cc7e29f8b90b5b0a0702404c8aad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 08/37] fix: Decision and Effect constants are read-only

---
 ndg/xacml/core/context/result.py | 12 ++++++++++--
 ndg/xacml/core/rule.py           |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index c462884..26b7795 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -311,7 +311,7 @@ class Decision(object):
     
     def __init__(self, decision=INDETERMINATE_STR):
         self.__value = None
-        self.value = decision
+        Decision._setValue(self, decision)
 
     def __getstate__(self):
         '''Enable pickling
@@ -421,12 +421,14 @@ class PermitDecision(Decision):
         """Initialise set with Permit value"""
         super(PermitDecision, self).__init__(Decision.PERMIT_STR)
         
-    def _setValue(self):  
+    def _setValue(self, value):  
         """Make value read-only
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, doc="Decision value")
+
 
 class DenyDecision(Decision):
     """Deny authorisation Decision"""
@@ -442,6 +444,8 @@ class DenyDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, doc="Decision value")
+
 
 class IndeterminateDecision(Decision):
     """Indeterminate authorisation Decision"""
@@ -457,6 +461,8 @@ class IndeterminateDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, doc="Decision value")
+
 
 class NotApplicableDecision(Decision):
     """NotApplicable authorisation Decision"""
@@ -471,6 +477,8 @@ class NotApplicableDecision(Decision):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+
+    value = property(fget=Decision._getValue, fset=_setValue, doc="Decision value")
     
     
 # Add instances of each for convenience
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index b1a32f2..6299788 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -44,7 +44,7 @@ class Effect(object):
         @type effect: basestring / ndg.xacml.core.rule.Effect
         """
         self.__value = None
-        self.value = effect
+        Effect._setValue(self, effect)
 
     def __getstate__(self):
         '''Enable pickling
@@ -160,6 +160,8 @@ class PermitEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue, doc="Effect value")
+
 
 class DenyEffect(Effect):
     """Deny authorisation Effect"""
@@ -175,6 +177,8 @@ class DenyEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue, doc="Effect value")
+
 # Add instances of each for convenience
 Effect.PERMIT = PermitEffect()
 Effect.DENY = DenyEffect()
-- 
2.43.0


From 958ad31a735cd63b0bd8efc39219720a5823f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 09/37] fix: comparing Decision and Effect with other types
 raises TypeError, not UnboundLocalError

---
 ndg/xacml/core/context/result.py | 3 ++-
 ndg/xacml/core/obligation.py     | 3 ++-
 ndg/xacml/core/rule.py           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 26b7795..4ad0818 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -404,7 +404,8 @@ class Decision(object):
             
         else:
             raise TypeError('Expecting string or Decision instance for '
-                            'input decision value; got %r instead' % type(value))
+                            'input decision value; got %r instead' % 
+                            type(decision))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable decision types are %r; got '
diff --git a/ndg/xacml/core/obligation.py b/ndg/xacml/core/obligation.py
index 13c6f7f..d889312 100644
--- a/ndg/xacml/core/obligation.py
+++ b/ndg/xacml/core/obligation.py
@@ -130,7 +130,8 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % 
+                            type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 6299788..4d46b55 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -129,7 +129,8 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % 
+                            type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From 38865b152d278354b303aa53c94846a7cc953bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 10/37] fix: default policy finder accepts file objects

---
 ndg/xacml/finder/defaultfinder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 5494742..451f736 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -30,8 +30,7 @@ def getDefaultPolicyFinder(source):
     if isinstance(source, str):
         if os.path.exists(source):
             basePath = os.path.dirname(source)
-    elif isinstance(source, file):
-        if hasattr(file, 'name') and file.name:
-            basePath = os.path.dirname(file.name)
+    elif isinstance(getattr(source, 'name', None), str):
+        basePath = os.path.dirname(source.name)
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From eceb2c15d66cc93a0289a47d552f112884633480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 11/37] fix: default policy finder resolves references for a
 policy with a relative path

---
 ndg/xacml/finder/defaultfinder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 451f736..92f1c59 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -29,8 +29,8 @@ def getDefaultPolicyFinder(source):
     basePath = None
     if isinstance(source, str):
         if os.path.exists(source):
-            basePath = os.path.dirname(source)
+            basePath = os.path.dirname(os.path.abspath(source))
     elif isinstance(getattr(source, 'name', None), str):
-        basePath = os.path.dirname(source.name)
+        basePath = os.path.dirname(os.path.abspath(source.name))
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From b2a2597ca5ac6cbe7c235c48eb7fe8ad51135ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 12/37] fix: status code parser doesn't use the removed
 getchildren method

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cf63130..cde71f0 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -416,7 +416,7 @@ class AttributeElementTree(Attribute):
             attribute.issuer = issuer
 
         # Parse sub-elements
-        if len(elem.getchildren()) == 0:
+        if len(list(getElementChildren(elem))) == 0:
             raise XMLParseError("XACML context Attribute element has no "
                                 "AttributeValues")
         AttributeValueClass = cls.attributeValueClassFactory(attribute.dataType)
-- 
2.43.0


From f22378e421d73aa22f56d440ad9853eca81fc64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 13/37] fix: serialise the resource id of a result

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cde71f0..a4d4562 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -512,7 +512,7 @@ class ResultElementTree(Result):
         attrib = {}
         # ResourceId attribute is optional.
         if result.resourceId is not None:
-            attrib.append[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
+            attrib[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
 
         elem = etree.makeEtreeElement(tag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-- 
2.43.0


From 1202eca125ba94d643d2623a2580ec8ec5fee9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 14/37] fix: Result.createInitialised keeps the resource id

---
 ndg/xacml/core/context/result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 4ad0818..0054d5f 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -555,6 +555,10 @@ class Result(XacmlContextBase):
         result.decision.value = decision
         result.status = Status.createInitialised(**kw)
         
+        # The resource id is optional: the empty default leaves it unset
+        if resourceId:
+            result.resourceId = resourceId
+        
         if obligations is not None:
             result.obligations = obligations
             
-- 
2.43.0


From b8e2412541a55af405057a38c246da0c64881c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 15/37] fix: makeEtreeElement doesn't add namespace
 declarations as attributes with lxml

---
 ndg/xacml/parsers/etree/__init__.py | 3 ++-
 ndg/xacml/parsers/etree/context.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f39f91b..beb9fcf 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -26,7 +26,8 @@ if Config.use_lxml:
         """Makes an ElementTree element handling namespaces in the way
         appropriate for the ElementTree implementation in use.
         """
-        elem = ElementTree.Element(tag, {ns_prefix: ns_uri}, attrib, **extra)
+        elem = ElementTree.Element(tag, attrib, nsmap={ns_prefix: ns_uri}, 
+                                   **extra)
         return elem
 
     def serialiseIfElementTree(obj):
diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index a4d4562..d53b2ae 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -384,7 +384,7 @@ class AttributeElementTree(Attribute):
                                  Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME))
             valueElem = etree.makeEtreeElement(valueTag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-                               Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME)
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
             valueElem.text = attributeValue.value
             elem.append(valueElem)
             ### TODO AttributeValue is a sequence of xs:any with xs:anyAttribute
-- 
2.43.0


From 69d8f8f54b2c5d78402664f16d56ae06aba0710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 16/37] fix: serialise the category of a subject

---
 ndg/xacml/parsers/etree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index d53b2ae..75df709 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -141,6 +141,9 @@ class SubjectElementTree(Subject):
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS)
 
+        if subject.subjectCategory is not None:
+            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)
+
         for attribute in subject.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
             elem.append(attributeElem)
-- 
2.43.0


From 0e6743073ec587e583c71d610cd961840eb00b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 17/37] fix: serialising a request doesn't move its resource
 content out of its document

---
 ndg/xacml/parsers/etree/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 75df709..35fee87 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -9,6 +9,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 
+import copy
 import logging
 log = logging.getLogger(__name__)
 
@@ -209,7 +210,8 @@ class ResourceElementTree(Resource):
             if not ElementTree.iselement(resource.resourceContent):
                 raise TypeError("Expecting ElementTree element got %r" %
                                                 type(resource.resourceContent))
-            elem.append(resource.resourceContent)
+            # Copy it: an lxml element can't be in two trees and would be moved
+            elem.append(copy.deepcopy(resource.resourceContent))
 
         for attribute in resource.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
-- 
2.43.0


From f9868189fb25d9f59fc4abe2e87c7cdb2a347c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 18/37] fix: parse an empty attribute value in a request as the
 empty string

---
 ndg/xacml/parsers/etree/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 35fee87..128ea02 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -429,7 +429,8 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(childElem.text)
+                # No text content is the empty string, not a missing value
+                attributeValue = AttributeValueClass(childElem.text or '')
                 attribute.attributeValues.append(attributeValue)
 
             else:
-- 
2.43.0


From b2d01210947b76bc9897d4c93d20a21029db925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 19/37] fix: reject a result without a decision

---
 ndg/xacml/parsers/etree/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 128ea02..4822387 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -564,6 +564,11 @@ class ResultElementTree(Result):
 
             ### TODO Handle status and obligations
 
+        if result.decision is None:
+            raise XMLParseError('No "%s" element found in "%s" element' %
+                                (Decision.ELEMENT_LOCAL_NAME,
+                                 cls.ELEMENT_LOCAL_NAME))
+
         return result
 
 class DecisionElementTree(Decision):
-- 
2.43.0


From fc6e2099f2c5344545c0ed7ac7a708e1e69cb333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 20/37] fix: parse policy set defaults

---
 ndg/xacml/core/policydefaults.py                | 4 ++++
 ndg/xacml/parsers/etree/policydefaultsreader.py | 3 ++-
 ndg/xacml/parsers/etree/policysetreader.py      | 4 ++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/policydefaults.py b/ndg/xacml/core/policydefaults.py
index 19f33a2..a835006 100644
--- a/ndg/xacml/core/policydefaults.py
+++ b/ndg/xacml/core/policydefaults.py
@@ -17,6 +17,9 @@ class PolicyDefaults(XacmlCoreBase):
     
     @cvar ELEMENT_LOCAL_NAME: XML local name for this element
     @type ELEMENT_LOCAL_NAME: string
+    @cvar POLICY_SET_DEFAULTS_LOCAL_NAME: XML local name for this element in a
+    policy set
+    @type POLICY_SET_DEFAULTS_LOCAL_NAME: string
     @cvar XPATH_VERSION_ELEMENT_NAME: XML local name for XPath version element
     @type XPATH_VERSION_ELEMENT_NAME: string
    
@@ -24,6 +27,7 @@ class PolicyDefaults(XacmlCoreBase):
     @type __xpathVersion: basestring / NoneType
     """
     ELEMENT_LOCAL_NAME = 'PolicyDefaults'
+    POLICY_SET_DEFAULTS_LOCAL_NAME = 'PolicySetDefaults'
     XPATH_VERSION_ELEMENT_NAME = 'XPathVersion'
     
     __slots__ = ('__xpathVersion', )
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index b4b4ba0..534c1c6 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -40,7 +40,8 @@ class PolicyDefaultsReader(ETreeAbstractReader):
         policyDefaults = xacmlType()
         
         localName = QName.getLocalPart(elem.tag)
-        if localName != xacmlType.ELEMENT_LOCAL_NAME:
+        if localName not in (xacmlType.ELEMENT_LOCAL_NAME,
+                             xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index c59b9d1..0c35c84 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -93,8 +93,8 @@ class PolicySetReader(ETreeAbstractReader):
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
-                policySet.policyDefaults = PolicyDefaultsReader.parse(childElem,
-                                                                      common)
+                policySet.policySetDefaults = PolicyDefaultsReader.parse(
+                                                            childElem, common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
                 TargetReader = ReaderFactory.getReader(Target)
-- 
2.43.0


From 523660ee17b7b23ecdad45e512300272238bd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 21/37] fix: rule description is initialised

---
 ndg/xacml/core/rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 4d46b55..1f1d786 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -230,6 +230,7 @@ class Rule(XacmlCoreBase):
         self.__effect = None
         self.__target = None
         self.__condition = None
+        self.__description = None
         
     @property
     def target(self):
-- 
2.43.0


From 04d0db8d99afe3c254e604dfee4cf763ba8164a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 22/37] fix: reject a match without a value or without a
 designator or selector

---
 ndg/xacml/parsers/etree/matchreader.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 9470afc..48f3f98 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -118,6 +118,20 @@ class MatchReaderBase(ETreeAbstractReader):
                                     "recognised" % 
                                     (xacmlType.MATCH_TYPE.ELEMENT_LOCAL_NAME,
                                      localName))
+
+        # The schema requires both a value and the source to match it against
+        if match.attributeValue is None:
+            raise XMLParseError('No "%s" element found in "%s" element' %
+                                (xacmlType.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
+        if (match.attributeDesignator is None and 
+            match.attributeSelector is None):
+            raise XMLParseError('No "%s" or "%s" element found in "%s" '
+                                'element' % 
+                                (attributeDesignatorType.ELEMENT_LOCAL_NAME,
+                                 AttributeSelector.ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
                     
         return match
 
-- 
2.43.0


From f9953d9eacfc73823cd6b6e10d24796a9bf52238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 23/37] fix: comments and processing instructions don't
 truncate text content with lxml

---
 ndg/xacml/parsers/etree/__init__.py             | 17 +++++++++++++++++
 ndg/xacml/parsers/etree/attributevaluereader.py |  7 ++++---
 ndg/xacml/parsers/etree/context.py              |  8 +++++---
 ndg/xacml/parsers/etree/policydefaultsreader.py | 10 ++++++----
 ndg/xacml/parsers/etree/policyreader.py         |  8 +++++---
 ndg/xacml/parsers/etree/policysetreader.py      | 12 +++++++-----
 ndg/xacml/parsers/etree/rulereader.py           |  8 +++++---
 ndg/xacml/utils/xpath_selector.py               |  4 +++-
 8 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index beb9fcf..d8e2a12 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -68,6 +68,23 @@ def getElementChildren(element):
         yield childElem
 
 
+def getElementText(element):
+    """Text content of an element up to its first child element.  Unlike the 
+    text attribute, it's not cut short by comments and processing instructions,
+    which lxml keeps as nodes of the tree
+    @return: text or None if there is none
+    @rtype: basestring / NoneType
+    """
+    parts = [element.text]
+    for child in element:
+        if isinstance(child.tag, str):
+            break
+        parts.append(child.tail)
+        
+    parts = [i for i in parts if i is not None]
+    return ''.join(parts) if parts else None
+
+
 # Generic ElementTree Helper classes
 class QName(ElementTree.QName):
     """Extend ElementTree implementation for improved attribute access support
diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 08903c1..43c4e6a 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementText
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,11 +90,12 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
-        if elem.text is None:
+        text = getElementText(elem)
+        if text is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
                                 AttributeValueReader.TYPE.ELEMENT_LOCAL_NAME) 
             
-        attributeValue.value = elem.text
+        attributeValue.value = text
 
         
 class ETreeDataTypeReaderClassMap(VettedDict):
diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 4822387..5a9212d 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -29,7 +29,8 @@ from ndg.xacml.core.context.result import Decision, Result
 from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 
 
 class RequestElementTree(Request):
@@ -430,7 +431,8 @@ class AttributeElementTree(Attribute):
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
                 # No text content is the empty string, not a missing value
-                attributeValue = AttributeValueClass(childElem.text or '')
+                attributeValue = AttributeValueClass(getElementText(childElem) or
+                                                     '')
                 attribute.attributeValues.append(attributeValue)
 
             else:
@@ -616,6 +618,6 @@ class DecisionElementTree(Decision):
 
         decision = Decision()
 
-        decision.value = elem.text
+        decision.value = getElementText(elem)
 
         return decision
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index 534c1c6..a784535 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -11,7 +11,8 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -45,17 +46,18 @@ class PolicyDefaultsReader(ETreeAbstractReader):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
-        if len(elem) != 1:
+        childElems = list(getElementChildren(elem))
+        if len(childElems) != 1:
             raise XMLParseError('Expecting a single child element for '
                                 'PolicyDefaults element')
             
-        if (QName.getLocalPart(elem[0].tag) != 
+        if (QName.getLocalPart(childElems[0].tag) != 
             xacmlType.XPATH_VERSION_ELEMENT_NAME):
             raise XMLParseError('Expecting a %r child element for '
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = elem[0].text 
+        xpathVersion = getElementText(childElems[0]) 
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 1031de4..fec160c 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.rule import Rule
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
     
@@ -104,8 +105,9 @@ class PolicyReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policy.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policy.description = description.strip()
                     
             elif localName == xacmlType.POLICY_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index 0c35c84..e40b569 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -88,8 +89,9 @@ class PolicySetReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policySet.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policySet.description = description.strip()
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
@@ -122,7 +124,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policy)
 
             elif localName == Policy.POLICY_ID_REFERENCE:
-                policyIdReference = childElem.text
+                policyIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicy(common,
                                                             policyIdReference))
 
@@ -132,7 +134,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policySetChild)
 
             elif localName == PolicySet.POLICY_SET_ID_REFERENCE:
-                policySetIdReference = childElem.text
+                policySetIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicySet(common,
                                                         policySetIdReference))
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 5fdcce6..a17d099 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -13,7 +13,8 @@ from ndg.xacml.core.rule import Rule, Effect
 from ndg.xacml.core.condition import Condition
 from ndg.xacml.core.target import Target
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -66,8 +67,9 @@ class RuleReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    rule.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
                 ConditionReader = ReaderFactory.getReader(Condition)
diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index f8d7bc9..110da51 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -12,6 +12,8 @@ from abc import ABCMeta, abstractmethod
 from ndg.xacml import Config, importElementTree
 ElementTree = importElementTree()
 
+from ndg.xacml.parsers.etree import getElementText
+
 class XPathSelectorInterface(object, metaclass=ABCMeta):
     """Interface for XPath selectors.
     """
@@ -70,7 +72,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 # Allow for XPath expression selecting element text or attribute
                 # values.
                 if hasattr(m, 'text'):
-                    returnList.append(m.text)
+                    returnList.append(getElementText(m))
                 else:
                     returnList.append(m.__str__())
             return returnList
-- 
2.43.0


From 617f3af903f005771b572bb4af5a9f54633dd6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 24/37] fix: a match function result which isn't boolean is an
 error instead of being applied by its truth value

---
 ndg/xacml/core/match.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index de267f2..0c5dc60 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -285,6 +285,7 @@ class MatchBase(XacmlCoreBase):
         @type context: ndg.xacml.core.context.request.Request
         @return: match status
         @rtype: bool
+        @raise TypeError: match function doesn't give a boolean
         """
         
         # Create a match function based on the presence or absence of an
@@ -324,6 +325,12 @@ class MatchBase(XacmlCoreBase):
             attrMatchStatusValues[i] = matchFunction.evaluate(
                                                          matchAttributeValue,
                                                          requestAttributeValue)
+            if not isinstance(attrMatchStatusValues[i], bool):
+                raise TypeError('Expecting %r type result from match function '
+                                '%r; got %r' % 
+                                (bool, self.matchId, 
+                                 type(attrMatchStatusValues[i])))
+                
             if log.getEffectiveLevel() <= logging.DEBUG:
                 if attrMatchStatusValues[i] == True:
                     log.debug('Target attribute value %r matches request '
-- 
2.43.0


From 4fcf57a22d92b2ac8da6a966baa94c7aa4829f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 25/37] fix: an attribute selector gives the empty string for
 an element without text

---
 ndg/xacml/utils/xpath_selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index 110da51..dc08e1a 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -72,7 +72,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 # Allow for XPath expression selecting element text or attribute
                 # values.
                 if hasattr(m, 'text'):
-                    returnList.append(getElementText(m))
+                    returnList.append(getElementText(m) or '')
                 else:
                     returnList.append(m.__str__())
             return returnList
@@ -92,4 +92,4 @@ class EtreeXPathSelector(XPathSelectorInterface):
             else:
                 relPath = path
             elems = self.contextElem.findall(relPath)
-            return [e.text for e in elems]
+            return [e.text or '' for e in elems]
-- 
2.43.0


From cf06efb45f5fe83a88efcf29007ce2386eb0521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 26/37] fix: add the missing readers for environment matches
 and attribute designators

---
 .../environmentattributedesignatorreader.py   | 23 +++++++++++++++
 .../parsers/etree/environmentmatchreader.py   | 29 +++++++++++++++++++
 2 files changed, 52 insertions(+)
 create mode 100644 ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
 create mode 100644 ndg/xacml/parsers/etree/environmentmatchreader.py

diff --git a/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
new file mode 100644
index 0000000..51b39e9
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
@@ -0,0 +1,23 @@
+"""NDG XACML ElementTree based reader for EnvironmentAttributeDesignator type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "19/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.attributedesignatorreader import \
+    AttributeDesignatorReaderBase
+
+
+class EnvironmentAttributeDesignatorReader(AttributeDesignatorReaderBase): 
+    '''ElementTree based XACML Environment Attribute Designator type parser
+    
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    '''
+    TYPE = EnvironmentAttributeDesignator
diff --git a/ndg/xacml/parsers/etree/environmentmatchreader.py b/ndg/xacml/parsers/etree/environmentmatchreader.py
new file mode 100644
index 0000000..40290e2
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentmatchreader.py
@@ -0,0 +1,29 @@
+"""NDG XACML ElementTree based reader for environment match type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "16/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.match import EnvironmentMatch
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.matchreader import MatchReaderBase
+
+
+class EnvironmentMatchReader(MatchReaderBase):
+    """ElementTree based parser for XACML EnvironmentMatch
+        
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: type
+    
+    @cvar ATTRIBUTE_DESIGNATOR_TYPE: type of attribute designator that this 
+    match type holds
+    @type ATTRIBUTE_DESIGNATOR_TYPE: abc.ABCMeta
+    """
+    TYPE = EnvironmentMatch
+    ATTRIBUTE_DESIGNATOR_TYPE = EnvironmentAttributeDesignator
+    
-- 
2.43.0


From 7eb7cc23bd4fe0d5625954a4027ee36f7767239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 27/37] fix: url-string-concatenate is a standard function, a
 custom one can't replace it

---
 ndg/xacml/core/functions/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index f151eba..8dd21e7 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -193,6 +193,7 @@ class XacmlFunctionNames(object):
 'urn:oasis:names:tc:xacml:1.0:function:rfc822Name-bag',
 'urn:oasis:names:tc:xacml:2.0:function:string-concatenate',
 'urn:oasis:names:tc:xacml:2.0:function:uri-string-concatenate',
+'urn:oasis:names:tc:xacml:2.0:function:url-string-concatenate',
 'urn:oasis:names:tc:xacml:1.0:function:any-of',
 'urn:oasis:names:tc:xacml:1.0:function:all-of',
 'urn:oasis:names:tc:xacml:1.0:function:any-of-any',
-- 
2.43.0


From 18d5620417d08dab5ea4132178e89893a966ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 28/37] fix: request documents give attribute values the data
 type of their attribute

---
 ndg/xacml/parsers/etree/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 5a9212d..ae56ae5 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -433,6 +433,8 @@ class AttributeElementTree(Attribute):
                 # No text content is the empty string, not a missing value
                 attributeValue = AttributeValueClass(getElementText(childElem) or
                                                      '')
+                # The class may be registered under more than one data type
+                attributeValue.dataType = attribute.dataType
                 attribute.attributeValues.append(attributeValue)
 
             else:
-- 
2.43.0


From e63dc08a78206dd445b1d7c25337e606ed74d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 29/37] fix: a combining algorithm id which is refused isn't
 kept

---
 ndg/xacml/core/policy.py    | 8 +++++++-
 ndg/xacml/core/policyset.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/policy.py b/ndg/xacml/core/policy.py
index caaf380..0305c87 100644
--- a/ndg/xacml/core/policy.py
+++ b/ndg/xacml/core/policy.py
@@ -255,8 +255,14 @@ class Policy(PolicyBase):
             raise TypeError('Expecting string type for "ruleCombiningAlgId" '
                             'attribute; got %r' % type(value))
             
+        previous = self.__ruleCombiningAlgId
         self.__ruleCombiningAlgId = value
-        self._setRuleCombiningAlgFromId()
+        try:
+            self._setRuleCombiningAlgFromId()
+        except Exception:
+            # Keep the identifier in step with the algorithm which is in force
+            self.__ruleCombiningAlgId = previous
+            raise
         
     def _setRuleCombiningAlgFromId(self):
         """Set the rule combining algorithm implementation from the Id set in
diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 7cc9030..e267cd1 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -246,8 +246,14 @@ class PolicySet(PolicyBase):
             raise TypeError('Expecting string type for "policyCombiningAlgId" '
                             'attribute; got %r' % type(value))
 
+        previous = self.__policyCombiningAlgId
         self.__policyCombiningAlgId = value
-        self._setPolicyCombiningAlgFromId()
+        try:
+            self._setPolicyCombiningAlgFromId()
+        except Exception:
+            # Keep the identifier in step with the algorithm which is in force
+            self.__policyCombiningAlgId = previous
+            raise
 
     def _setPolicyCombiningAlgFromId(self):
         """Set the policy combining algorithm implementation from the Id set in
-- 
2.43.0


From e69883a587931a5e74a1eff202a571a174bf2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 30/37] fix: a match or function id which is refused isn't kept

---
 ndg/xacml/core/apply.py | 8 +++++++-
 ndg/xacml/core/match.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/apply.py b/ndg/xacml/core/apply.py
index b43637b..7c79e77 100644
--- a/ndg/xacml/core/apply.py
+++ b/ndg/xacml/core/apply.py
@@ -98,11 +98,17 @@ class Apply(Expression):
             raise TypeError('Expecting %r type for "functionId" '
                             'attribute; got %r' % (str, type(value)))
             
+        previous = self.__functionId
         self.__functionId = value
         
         # Also retrieve function for this function ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Keep the identifier in step with the function in force
+                self.__functionId = previous
+                raise
 
     functionId = property(_get_functionId, _set_functionId, None, 
                           "Apply type Function ID") 
diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index 0c5dc60..ca5fb4f 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -176,11 +176,17 @@ class MatchBase(XacmlCoreBase):
             raise TypeError('Expecting string type for "matchId" '
                             'attribute; got %r' % type(value))
             
+        previous = self.__matchId
         self.__matchId = value
         
         # Also retrieve function for this match ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Keep the identifier in step with the function in force
+                self.__matchId = previous
+                raise
 
     matchId = property(_getMatchId, _setMatchId, None, 
                        "Match identifier for match function")
-- 
2.43.0


From b42ad8fd90e78d8cd1b523e6b3c0fe27fe7a7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 31/37] fix: copies and pickles of contexts keep all their
 parts

---
 ndg/xacml/core/__init__.py  | 28 +++++++++++++++++++++-------
 ndg/xacml/core/attribute.py |  2 +-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/ndg/xacml/core/__init__.py b/ndg/xacml/core/__init__.py
index 5726142..7c60d2c 100644
--- a/ndg/xacml/core/__init__.py
+++ b/ndg/xacml/core/__init__.py
@@ -109,15 +109,29 @@ class XacmlCoreBase(object):
         @rtype: dict
         '''
         _dict = {}
-        for attrName in XacmlCoreBase.__slots__:
-            # Ugly hack to allow for derived classes setting private member
-            # variables
-            if attrName.startswith('__'):
-                attrName = "_XacmlCoreBase" + attrName
+        for cls in self.__class__.__mro__:
+            for attrName in cls.__dict__.get('__slots__', ()):
+                # Ugly hack to allow for derived classes setting private member
+                # variables
+                if attrName.startswith('__'):
+                    attrName = "_%s%s" % (cls.__name__.lstrip('_'), attrName)
                 
-            _dict[attrName] = getattr(self, attrName)
-            
+                if hasattr(self, attrName):
+                    _dict[attrName] = getattr(self, attrName)
+        
+        # Not all derived classes define slots
+        _dict.update(getattr(self, '__dict__', {}))
+        
         return _dict
+
+    def __setstate__(self, attrDict):
+        '''Explicit implementation needed with __slots__
+        
+        @param attrDict: object's attribute dictionary
+        @type attrDict: dict
+        '''
+        for attr, val in list(attrDict.items()):
+            setattr(self, attr, val)
             
 
 class XacmlPolicyBase(XacmlCoreBase):
diff --git a/ndg/xacml/core/attribute.py b/ndg/xacml/core/attribute.py
index 936c531..7fe1eb3 100644
--- a/ndg/xacml/core/attribute.py
+++ b/ndg/xacml/core/attribute.py
@@ -146,7 +146,7 @@ class Attribute(XacmlCoreBase):
         @return: class instance attributes dictionary
         @rtype: dict
         '''
-        _dict = {}
+        _dict = super(Attribute, self).__getstate__()
         for attrName in Attribute.__slots__:
             # Ugly hack to allow for derived classes setting private member
             # variables
-- 
2.43.0


From 67a38f0fea1670b3ba592e03f02d8420d855da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 32/37] fix: typed lists can be copied and pickled

---
 ndg/xacml/utils/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 7ca164f..24bbf9f 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -170,6 +170,18 @@ class TypedList(list):
     
         return super(TypedList, self).append(item)
 
+    def __reduce_ex__(self, protocol):
+        """Enable pickling and copying: the element type is needed before any
+        item can be added
+        
+        @param protocol: pickle protocol
+        @type protocol: int
+        @return: callable, its arguments, state and iterator over the items
+        @rtype: tuple
+        """
+        return (self.__class__, (self.__elementType,), self.__dict__, 
+                iter(self))
+
 
 class RestrictedKeyNamesDict(dict):
     """Utility class for holding a constrained list of key names
-- 
2.43.0


From 115a878c8997da8ae4d6b0af398819c72f9cdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:38 +0000
Subject: [PATCH 33/37] fix: built-in attribute values can be pickled

---
 ndg/xacml/core/attributevalue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/attributevalue.py b/ndg/xacml/core/attributevalue.py
index 81b6dd5..677f4ea 100644
--- a/ndg/xacml/core/attributevalue.py
+++ b/ndg/xacml/core/attributevalue.py
@@ -279,11 +279,15 @@ class AttributeValueClassFactory(object):
         _identifier = AttributeValue.TYPE_URI_MAP[_typeName]
     
         _className = _typeName + AttributeValue.CLASS_NAME_SUFFIX               
-        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier}
+        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier,
+                      '__module__': __name__}
         
         _attributeValueClass = type(_className, (AttributeValue, ), _classVars)
         AttributeValue.register(_attributeValueClass)
         IDENTIFIER2CLASS_MAP[_identifier] = _attributeValueClass
+        
+        # Pickling needs to find the class by its name in this module
+        globals()[_className] = _attributeValueClass
     
     del _typeName, _type, _identifier, _className, _classVars, \
         _attributeValueClass
-- 
2.43.0


From 11c86dded3c493c0d414aa79014d0454c8ba8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 34/37] fix: an attribute's values are attribute values

---
 ndg/xacml/core/attribute.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ndg/xacml/core/attribute.py b/ndg/xacml/core/attribute.py
index 7fe1eb3..144b1b7 100644
--- a/ndg/xacml/core/attribute.py
+++ b/ndg/xacml/core/attribute.py
@@ -73,6 +73,16 @@ class Attribute(XacmlCoreBase):
         if not isinstance(value, TypedList):
             raise TypeError('Expecting %r type for "attributeValues" '
                             'attribute; got %r' % (TypedList, type(value)))
+        
+        elementTypes = value.elementType
+        if not isinstance(elementTypes, tuple):
+            elementTypes = (elementTypes,)
+        
+        for elementType in elementTypes:
+            if not issubclass(elementType, AttributeValue):
+                raise TypeError('Expecting %r element type for '
+                                '"attributeValues" attribute; got %r' % 
+                                (AttributeValue, elementType))
             
         self.__attributeValues = value
                    
-- 
2.43.0


From 8e42dce487fcfbf7c5ede7974d6538b8fb901376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 35/37] fix: quote the base path of URL policy references,
 which is a file path

---
 ndg/xacml/finder/urlpolicyfinder.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/finder/urlpolicyfinder.py b/ndg/xacml/finder/urlpolicyfinder.py
index 72b8bad..34bd50d 100644
--- a/ndg/xacml/finder/urlpolicyfinder.py
+++ b/ndg/xacml/finder/urlpolicyfinder.py
@@ -10,6 +10,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 import os
+from urllib.request import pathname2url
 
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
@@ -121,10 +122,10 @@ class UrlPolicyFinder(PolicyFinderBase):
             if path.startswith(self._RELATIVE_PATH_PREFIX):
                 # Relative path - convert to absolute.
                 path = path[len(self._RELATIVE_PATH_PREFIX):]
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._FILE_SCHEME + self._joinToBasePath(path)
             elif not path.startswith(os.path.sep):
                 # Relative path - convert to absolute.
-                url = self._FILE_SCHEME + os.path.join(self.basePath, path)
+                url = self._FILE_SCHEME + self._joinToBasePath(path)
             else:
                 url = reference
         elif [True for scheme in self._NON_FILE_SCHEMES
@@ -136,5 +137,17 @@ class UrlPolicyFinder(PolicyFinderBase):
                 url = self._DEFAULT_SCHEME + reference
             else:
                 url = (self._DEFAULT_SCHEME +
-                       os.path.join(self.basePath, reference))
+                       self._joinToBasePath(reference))
         return url
+
+    def _joinToBasePath(self, reference):
+        """
+        Joins a relative reference to the base path. The reference is already
+        URL text, but the base path is a file path so that characters special
+        in URLs have to be quoted in it.
+        @param reference: relative reference
+        @type reference: str
+        @return: path part of a URL
+        @rtype: str
+        """
+        return os.path.join(pathname2url(self.basePath), reference)
-- 
2.43.0


From 623cd87467fddff16de556bbe4c43afe52680c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:19 +0000
Subject: [PATCH 36/37] fix: read the root policy by the reader registered for
 its kind

---
 ndg/xacml/parsers/etree/policybasereader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/parsers/etree/policybasereader.py b/ndg/xacml/parsers/etree/policybasereader.py
index 4c42324..bf12dcf 100644
--- a/ndg/xacml/parsers/etree/policybasereader.py
+++ b/ndg/xacml/parsers/etree/policybasereader.py
@@ -17,6 +17,7 @@ from ndg.xacml.parsers.etree import QName
 from ndg.xacml.parsers.etree.policyreader import PolicyReader
 from ndg.xacml.parsers.etree.policysetreader import PolicySetReader
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
+from ndg.xacml.parsers.etree.factory import ReaderFactory
 
 
 class PolicyBaseReader(ETreeAbstractReader):
@@ -48,8 +49,10 @@ class PolicyBaseReader(ETreeAbstractReader):
                                 " of a XACML document",
                                 localName)
 
-        # Instantiate appropriate reader and parse the policy document.
-        rootElementReader = readerType()
-        policy = rootElementReader.processElement(elem, common)
+        # A reader registered for the type takes the place of the default one
+        readerType = ReaderFactory.READER_CLASS_MAP.get(xacmlType, readerType)
+
+        # Parse the policy document with the appropriate reader.
+        policy = readerType.parse(elem, common)
 
         return policy
-- 
2.43.0


From abdcd1145851d39f8b9207d508fc1e2fcff56742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:29 +0000
Subject: [PATCH 37/37] fix: read Apply elements by the reader registered for
 them

---
 ndg/xacml/parsers/etree/applyreader.py     | 4 +++-
 ndg/xacml/parsers/etree/conditionreader.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/parsers/etree/applyreader.py b/ndg/xacml/parsers/etree/applyreader.py
index fb273a9..d2083c5 100644
--- a/ndg/xacml/parsers/etree/applyreader.py
+++ b/ndg/xacml/parsers/etree/applyreader.py
@@ -83,7 +83,9 @@ class ApplyReader(ETreeAbstractReader):
         for subElem in getElementChildren(elem):
             localName = QName.getLocalPart(subElem.tag)
             if localName == xacmlType.ELEMENT_LOCAL_NAME:
-                applyObj.expressions.append(ApplyReader.parse(subElem, common))
+                SubApplyReader = ReaderFactory.getReader(Apply)
+                applyObj.expressions.append(SubApplyReader.parse(subElem,
+                                                                 common))
              
             elif localName == AttributeValue.ELEMENT_LOCAL_NAME:
                 AttributeValueReader = ReaderFactory.getReader(AttributeValue) 
diff --git a/ndg/xacml/parsers/etree/conditionreader.py b/ndg/xacml/parsers/etree/conditionreader.py
index 1692223..b8a1909 100644
--- a/ndg/xacml/parsers/etree/conditionreader.py
+++ b/ndg/xacml/parsers/etree/conditionreader.py
@@ -9,11 +9,12 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
+from ndg.xacml.core.apply import Apply
 from ndg.xacml.core.condition import Condition
 from ndg.xacml.parsers import XMLParseError
 from ndg.xacml.parsers.etree import QName, getElementChildren
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
-from ndg.xacml.parsers.etree.applyreader import ApplyReader
+from ndg.xacml.parsers.etree.factory import ReaderFactory
 
 
 class ConditionReader(ETreeAbstractReader):
@@ -59,6 +60,7 @@ class ConditionReader(ETreeAbstractReader):
         
         subElemlocalName = QName.getLocalPart(subElem.tag)
         if subElemlocalName == xacmlType.APPLY_ELEMENT_LOCAL_NAME:
+            ApplyReader = ReaderFactory.getReader(Apply)
             condition.expression = ApplyReader.parse(subElem, common)
         else:
             raise XMLParseError('Expecting %r Condition sub-element not '
-- 
2.43.0

