From 263d6722606745ad8653dbfd5988bf00826ca7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 01/40] fix: reject a single leftover byte in
 Struct.from_bytes(exact=True)

---
 binobj/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..1678022 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,10 +551,11 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and here < len(stream.getbuffer()):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
-                offset=stream.tell(),
+                f"Read {here} bytes, but there are {len(stream.getbuffer())} in the"
+                " input data.",
+                offset=here,
             )
         return loaded_data
 
-- 
2.43.0


From abea3135c8c18e8c50614c2860d8b1e32eeb9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 02/40] fix: StringZ loads read the terminator correctly

The default's length no longer limits what is read, a sized string's padding
is consumed, stateful codecs that decode the terminator together with other
characters are handled, and running out of data is an UnexpectedEOFError so
that partial loads can stop there.
---
 binobj/fields/stringlike.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..4f98e8a 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -159,24 +159,26 @@ class StringZ(String):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
-        max_bytes: Optional[int]
-        try:
-            max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
-            max_bytes = None
-
-        iterator = helpers.iter_bytes(stream, max_bytes)
-        reader = codecs.iterdecode(iterator, self.encoding)
+        if self.size is not None:
+            # The field always takes up its entire size, including any padding after
+            # the terminating null.
+            stream = io.BytesIO(self._read_exact_size(stream, loaded_fields))
+
+        decoder = codecs.getincrementaldecoder(self.encoding)()
         result = io.StringIO()
 
-        for char in reader:
-            if char == "\0":
+        for byte in helpers.iter_bytes(stream):
+            # Stateful encodings can give us several characters at once.
+            text, terminator, _ = decoder.decode(byte).partition("\0")
+            result.write(text)
+            if terminator:
                 return result.getvalue()
-            result.write(char)
 
         # If we get out here then we hit EOF before getting to the null terminator.
+        if self.size is None:
+            raise errors.UnexpectedEOFError(field=self, size=1, offset=stream.tell())
         raise errors.DeserializationError(
-            "Hit EOF before finding the trailing null.", field=self
+            "Hit the end of the field before finding the trailing null.", field=self
         )
 
     @override
-- 
2.43.0


From 1fd2138d4603775d3ced3c6462df24457f8db175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 03/40] fix: use a field's factory when dumping it as part of a
 struct

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..236f7ca 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -440,7 +440,7 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif self._default is not UNDEFINED or self.factory is not None:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
-- 
2.43.0


From 6468d7aa4baf5b01cb2a4d51bc5f27aaf11c94b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 04/40] fix: dump the values assigned to discardable fields

---
 binobj/structures.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 1678022..1dc9a4f 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -277,31 +277,44 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 
 @overload
-def recursive_to_dicts(item: Struct) -> dict[str, Any]: ...
+def recursive_to_dicts(
+    item: Struct, keep_discardable: bool = ...
+) -> dict[str, Any]: ...
 
 
 @overload
-def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
+def recursive_to_dicts(
+    item: Mapping[K, V], keep_discardable: bool = ...
+) -> dict[K, V]: ...
 
 
 @overload
-def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
+def recursive_to_dicts(
+    item: Sequence[T], keep_discardable: bool = ...
+) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param bool keep_discardable:
+        If True, don't exclude fields marked with ``discard=True`` from the result.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item.to_dict(keep_discardable)
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
+                v, keep_discardable
+            )
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, keep_discardable) for v in item]
     return item
 
 
@@ -376,8 +389,9 @@ class Struct(HasStruct):
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
-        # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        # fields expecting a dictionary. Discardable fields are only dropped when loading
+        # so they must keep the values assigned to them here.
+        all_fields = self.to_dict(keep_discardable=True)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -439,7 +453,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable)
 
     def _to_dict_whatever_possible(self) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
-- 
2.43.0


From 991b10443d9105d1ba06cab5fa14a2fda9353829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 05/40] fix: don't run field validators on fields that aren't
 present

---
 binobj/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 1dc9a4f..f34d2bd 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -362,6 +362,9 @@ class Struct(HasStruct):
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
             value = self[f_name]
+            if value is fields.NOT_PRESENT:
+                # There's nothing to validate.
+                continue
 
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
-- 
2.43.0


From b9c935e93e3f8a1469e12d1a37f4655b0eaf075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 06/40] fix: pass the context to the presence checks when
 dumping

---
 binobj/structures.py | 53 +++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index f34d2bd..43d0008 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -278,23 +278,25 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 @overload
 def recursive_to_dicts(
-    item: Struct, keep_discardable: bool = ...
+    item: Struct, keep_discardable: bool = ..., context: object = ...
 ) -> dict[str, Any]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Mapping[K, V], keep_discardable: bool = ...
+    item: Mapping[K, V], keep_discardable: bool = ..., context: object = ...
 ) -> dict[K, V]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Sequence[T], keep_discardable: bool = ...
+    item: Sequence[T], keep_discardable: bool = ..., context: object = ...
 ) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
+def recursive_to_dicts(
+    item: object, keep_discardable: bool = False, context: object = None
+) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
@@ -303,18 +305,20 @@ def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
         Anything. If it's an unsupported type it'll get returned as is.
     :param bool keep_discardable:
         If True, don't exclude fields marked with ``discard=True`` from the result.
+    :param context:
+        The ``context`` object to determine the presence of fields with.
     """
     if isinstance(item, Struct):
-        return item.to_dict(keep_discardable)
+        return item.to_dict(keep_discardable, context)
     if isinstance(item, Mapping):
         return {
-            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
-                v, keep_discardable
+            recursive_to_dicts(k, keep_discardable, context): recursive_to_dicts(
+                v, keep_discardable, context
             )
             for k, v in item.items()
         }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v, keep_discardable) for v in item]
+        return [recursive_to_dicts(v, keep_discardable, context) for v in item]
     return item
 
 
@@ -352,16 +356,25 @@ class Struct(HasStruct):
 
         self.__values__ = values
 
-    def validate_contents(self) -> None:
+    def validate_contents(self, context: object = None) -> None:
         """Validate the stored values in this struct.
 
+        :param context:
+            The ``context`` object the struct is about to be dumped with, if any.
+
         :raise ~binobj.errors.ValidationError: Validation failed.
 
         .. versionadded:: 0.4.0
         """
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
-            value = self[f_name]
+            if f_name in self.__values__:
+                value = self[f_name]
+            else:
+                value = f_obj.compute_value_for_dump(
+                    typing.cast(StrDict, self), context
+                )
+
             if value is fields.NOT_PRESENT:
                 # There's nothing to validate.
                 continue
@@ -388,13 +401,13 @@ class Struct(HasStruct):
             Additional data to pass to this method. Subclasses must ignore anything they
             don't recognize.
         """
-        self.validate_contents()
+        self.validate_contents(context)
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary. Discardable fields are only dropped when loading
         # so they must keep the values assigned to them here.
-        all_fields = self.to_dict(keep_discardable=True)
+        all_fields = self.to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -415,7 +428,9 @@ class Struct(HasStruct):
         self.to_stream(stream, context)
         return stream.getvalue()
 
-    def to_dict(self, keep_discardable: bool = False) -> dict[str, Any]:
+    def to_dict(
+        self, keep_discardable: bool = False, context: object = None
+    ) -> dict[str, Any]:
         """Convert this struct into an ordered dictionary.
 
         The primary use for this method is converting a loaded :class:`Struct` into
@@ -424,6 +439,8 @@ class Struct(HasStruct):
 
         :param bool keep_discardable:
             If True, don't exclude fields marked with ``discard=True`` from the result.
+        :param context:
+            The object to pass to the :attr:`present` callables of the fields.
 
         :rtype: Dict[str, Any]
 
@@ -442,10 +459,10 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
-        dct = self._to_dict_whatever_possible()
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
@@ -456,9 +473,9 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct, keep_discardable)
+        return recursive_to_dicts(dct, keep_discardable, context)
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -471,7 +488,7 @@ class Struct(HasStruct):
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
+                    typing.cast(StrDict, self), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
-- 
2.43.0


From dd3697bceddd7127647ab1270ae0873fc1c8ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 07/40] fix: don't count conditional fields as fixed-size

A field with a presence check may take up no space at all, and one without a
size of its own varies with its value even if it has a default, so neither can
contribute to a struct's fixed size or to the offsets of the fields after it.
---
 binobj/fields/base.py       | 12 +++++++++++-
 binobj/fields/containers.py |  6 +++++-
 binobj/pep526.py            |  6 +++++-
 binobj/structures.py        | 20 ++++++++++++++++----
 4 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 236f7ca..61c77d7 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,11 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_: object) -> bool:
+    """Indicate that a field is unconditionally present."""
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +280,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +343,11 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def is_conditional(self) -> bool:
+        """Can this field be missing from the serialized data?"""
+        return self.present is not _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..dc704b4 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -114,7 +114,11 @@ class Array(Field[list[Optional[T]]]):
         else:
             raise TypeError("`count` must be an integer, string, or a `Field`.")
 
-        if isinstance(self.count, int) and component.has_fixed_size:
+        if (
+            isinstance(self.count, int)
+            and component.has_fixed_size
+            and not component.is_conditional
+        ):
             self._size = self.count * typing.cast(int, component.size)
 
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..221a1f1 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -257,7 +257,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if (
+            byte_offset is not None
+            and field_instance.has_fixed_size
+            and not field_instance.is_conditional
+        ):
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 43d0008..7a8ea69 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -191,13 +191,21 @@ class StructMetadata:
 
         .. versionadded:: 0.12.0
         """
+        field_objects = self.components.values()
         if field_values is None:
+            # Without any values all we can rely on is what's true for all instances.
+            if any(f.is_conditional or not f.has_fixed_size for f in field_objects):
+                return None
             field_values = {}
 
-        field_objects = self.components.values()
         try:
-            return sum(f.get_expected_size(field_values) for f in field_objects)
-        except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
+            return sum(
+                f.get_expected_size(field_values)
+                for f in field_objects
+                if f.present(field_values, None, None)
+            )
+        except (errors.UndefinedSizeError, errors.MissingRequiredValueError, KeyError):
+            # KeyError: a presence check needs a field that wasn't given.
             return None
 
 
@@ -245,7 +253,11 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if (
+            byte_offset is not None
+            and item.has_fixed_size
+            and not item.is_conditional
+        ):
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
-- 
2.43.0


From a29400cb229f72884503f5df7570835c8e3b5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 08/40] fix: compute the length of structs with absent or
 field-sized parts

Absent fields take up no space, and fields whose size is given by another
field need the values of the other fields to be serialized.
---
 binobj/structures.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 7a8ea69..970b31d 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -810,6 +810,11 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
+            if current_fields.get(
+                field.name
+            ) is fields.NOT_PRESENT or not field.present(current_fields, None, None):
+                continue
+
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
@@ -817,7 +822,9 @@ class Struct(HasStruct):
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
                     field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    size += len(
+                        field.to_bytes(field_value, all_fields=current_fields)
+                    )
 
         return size
 
-- 
2.43.0


From 183dcff114db2b5fd0dc9501daf74adf4e1e3da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 09/40] fix: load discardable fields for partial_load and
 get_field like a full load does

---
 binobj/structures.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 970b31d..06ef444 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -644,6 +644,20 @@ class Struct(HasStruct):
                 f"{cls.__name__} doesn't have a field named {last_field!r}."
             )
 
+        result = cls._load_leading_fields(stream, last_field, context)
+        return cls(
+            **{
+                name: value
+                for name, value in result.items()
+                if not cls.__binobj_struct__.components[name].discard
+            }
+        )
+
+    @classmethod
+    def _load_leading_fields(
+        cls, stream: BinaryIO, last_field: Optional[str], context: object
+    ) -> MutableStrDict:
+        """Load all fields, including discardable ones, until EOF or the named field."""
         result: MutableStrDict = {}
 
         for field in cls.__binobj_struct__.components.values():
@@ -662,13 +676,11 @@ class Struct(HasStruct):
                 stream.seek(offset)
                 break
 
-            if not field.discard:
-                result[field.name] = value
-
+            result[field.name] = value
             if field.name == last_field:
                 break
 
-        return cls(**result)
+        return result
 
     @classmethod
     def get_field(cls, stream: BinaryIO, name: str, context: object = None) -> Any:
@@ -720,7 +732,7 @@ class Struct(HasStruct):
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-            loaded_data = cls.partial_load(stream, name, context)
+            loaded_data = cls._load_leading_fields(stream, name, context)
         finally:
             stream.seek(original_offset)
         return loaded_data[name]
-- 
2.43.0


From daf8a820cb5dff591f75204b398afce3d00857e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 10/40] fix: get_field() of fields that depend on others

Fields at a fixed offset were loaded without the values of the other fields,
even if their size, element count, presence or type is given by one of them.
---
 binobj/fields/base.py       |  5 +++++
 binobj/fields/containers.py | 16 ++++++++++++++++
 binobj/structures.py        |  9 +++++----
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 61c77d7..4a4707d 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -348,6 +348,11 @@ class Field(Generic[T]):
         """Can this field be missing from the serialized data?"""
         return self.present is not _always_present
 
+    @property
+    def needs_loaded_fields(self) -> bool:
+        """Can loading this field require the values of the fields before it?"""
+        return self.is_conditional or isinstance(self.size, (str, Field))
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index dc704b4..5821040 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -121,6 +121,16 @@ class Array(Field[list[Optional[T]]]):
         ):
             self._size = self.count * typing.cast(int, component.size)
 
+    @property
+    @override
+    def needs_loaded_fields(self) -> bool:
+        return (
+            super().needs_loaded_fields
+            or isinstance(self.count, (str, Field))
+            or self.halt_check is not Array.should_halt
+            or self.component.needs_loaded_fields
+        )
+
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
         """Calculate the number of elements in the array based on other fields' values.
 
@@ -471,6 +481,12 @@ class Union(Field[Any]):
         self.load_decider = load_decider
         self.dump_decider = dump_decider
 
+    @property
+    @override
+    def needs_loaded_fields(self) -> bool:
+        # The load decider may look at any of the fields loaded so far.
+        return True
+
     @override
     def _do_dump(
         self, stream: BinaryIO, data: Any, context: object, all_fields: StrDict
diff --git a/binobj/structures.py b/binobj/structures.py
index 06ef444..7707c72 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -690,8 +690,9 @@ class Struct(HasStruct):
         be read directly.
 
         If the field isn't at a fixed offset from the beginning of the struct (e.g. a
-        variable-length field occurs before it) then the entire struct up to and
-        including this field must be read. Unfortunately, this means that unrelated
+        variable-length field occurs before it) or needs the values of other fields to
+        be loaded (e.g. its size) then the entire struct up to and including this field
+        must be read. Unfortunately, this means that unrelated
         validation errors can be thrown if other fields have problems.
 
         :param BinaryIO stream:
@@ -720,7 +721,7 @@ class Struct(HasStruct):
 
         # If the field is at a fixed offset from the beginning of the struct, then we
         # can read and return it directly.
-        if field.offset is not None:
+        if field.offset is not None and not field.needs_loaded_fields:
             try:
                 stream.seek(original_offset + field.offset)
                 return field.from_stream(stream, context, {})
@@ -728,7 +729,7 @@ class Struct(HasStruct):
                 stream.seek(original_offset)
 
         # If we get here then the field is *not* at a fixed offset from the beginning of
-        # the struct, and we have to read everything up to it. This can unfortunately
+        # the struct or depends on others, and we have to read everything up to it. This can unfortunately
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-- 
2.43.0


From b5593b788fb8186eb144267b54ce0fddeb4b9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 11/40] fix: compare partially filled structs

list() asks for the serialized length as a hint, which incomplete structs
don't have.
---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 7707c72..bd12c14 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -855,12 +855,12 @@ class Struct(HasStruct):
 
         # Compare only defined values by using __iter__ to get the keys that are
         # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
+        self_values = recursive_to_dicts({n: self[n] for n in self})
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From 3de799f190a12bad79a9624b5191c0194e5eea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 12/40] fix: make the length, containment and equality of
 struct proxies a mapping's

The length was the struct's size in bytes, looking for an unset field crashed,
and a proxy never compared equal to a dictionary with the same contents.
---
 binobj/structures.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index bd12c14..a528942 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -896,7 +896,7 @@ def is_struct(thing: object) -> TypeGuard[HasStruct]:
     return hasattr(thing, STRUCT_META_NAME)
 
 
-@dc.dataclass
+@dc.dataclass(eq=False)
 class StructMappingProxy(Mapping[str, Any]):
     """An immutable wrapper that makes a :class:`Struct` work like a :class:`dict`.
 
@@ -912,11 +912,15 @@ class StructMappingProxy(Mapping[str, Any]):
     def __iter__(self) -> Iterator[str]:
         yield from iter(self.struct)
 
+    def __contains__(self, field: object) -> bool:
+        return any(name == field for name in self.struct)
+
     def __len__(self) -> int:
-        return len(self.struct)
+        # The length of a struct is its serialized size, not its number of fields.
+        return sum(1 for _ in self.struct)
 
 
-@dc.dataclass
+@dc.dataclass(eq=False)
 class MutableStructMappingProxy(StructMappingProxy, MutableMapping[str, Any]):
     """A mutable wrapper that makes a :class:`Struct` work like a :class:`dict`.
 
-- 
2.43.0


From 8a7bb6c85aefc1fa6d001b7408d5201eb721547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 13/40] fix: dump and load timestamps without losing precision

Floating-point arithmetic was off by up to one unit, e.g. 1.001 s dumped as
1000 ms.
---
 binobj/fields/numeric.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..05ab511 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -52,6 +52,8 @@ __all__ = [
 
 FloatFormat = Literal["e", "f", "d"]
 
+_UNIX_EPOCH = datetime.datetime.fromtimestamp(0, datetime.timezone.utc)
+
 
 class Float(Field[float]):
     """A floating-point number in IEEE-754:2008 interchange format.
@@ -394,7 +396,7 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
-    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
+    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
 
     def __init__(
         self,
@@ -428,11 +430,16 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
-        )
+        # Floats can't represent all timestamps to the microsecond, so we only use whole
+        # numbers here.
+        seconds, remainder = divmod(value, self._units)
+        microseconds = round(remainder * 10**6 / self._units)
+        if microseconds == 10**6:
+            seconds, microseconds = seconds + 1, 0
+
+        time_zone = datetime.timezone.utc if self.tz_aware else None
+        loaded = datetime.datetime.fromtimestamp(seconds, time_zone)
+        return loaded.replace(microsecond=microseconds)
 
     @override
     def _do_dump(
@@ -457,7 +464,18 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
+        # Floats can't represent all timestamps to the microsecond, so we only use whole
+        # numbers here.
+        if data.tzinfo is None:
+            microseconds = int(data.replace(microsecond=0).timestamp()) * 10**6
+            microseconds += data.microsecond
+        else:
+            microseconds = (data - _UNIX_EPOCH) // datetime.timedelta(microseconds=1)
+
+        timestamp = abs(microseconds) * self._units // 10**6
+        if microseconds < 0:
+            timestamp = -timestamp
+
         try:
             helpers.write_int(
                 stream,
-- 
2.43.0


From 8860ad55a6e86f2ba0720064d7b30e7ba26dd13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 14/40] fix: raise a SerializationError for floats that are too
 large for their field

---
 binobj/fields/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 05ab511..4a2cbc8 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -112,7 +112,7 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
-        except struct.error as exc:
+        except (struct.error, OverflowError) as exc:
             raise errors.SerializationError(message=str(exc), field=self) from exc
         stream.write(serialized)
 
-- 
2.43.0


From f29efb88cc7d300667c1f7ac9acaebd6f4205be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 15/40] fix: support inheritance between structs declared with
 annotations

Inherited fields were taken for redefinitions, and the offsets and indices of
the new fields didn't account for them.
---
 binobj/pep526.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 221a1f1..2bd4d4a 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,12 +221,17 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    # Fields of the parent struct, if any, come before the ones declared here.
+    field_index = len(meta.components)
     n_fields_found = 0
-    byte_offset = meta.size_bytes
+    byte_offset = meta.get_size()
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
+    own_annotations = vars(class_object).get("__annotations__", {})
 
     for name, raw_annotation in all_annotations.items():
+        if name not in own_annotations:
+            continue
+
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From 0bd630c2672d5f27570c9bf05fe1aecdf5bffc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 16/40] fix: support field validator methods in structs
 declared with annotations

---
 binobj/pep526.py     | 6 ++++++
 binobj/structures.py | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 2bd4d4a..6eec771 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -44,6 +44,7 @@ from typing import Union
 
 from binobj import errors
 from binobj import fields
+from binobj.decorators import ValidatorMethodWrapper
 from binobj.structures import Struct
 
 
@@ -272,6 +273,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators[name] = [
+            item
+            for item in vars(class_object).values()
+            if isinstance(item, ValidatorMethodWrapper) and name in item.field_names
+        ]
         field_index += 1
         n_fields_found += 1
 
diff --git a/binobj/structures.py b/binobj/structures.py
index a528942..984f8b7 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -274,6 +274,8 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
     .. versionadded:: 0.9.0
     """
+    annotated_names = namespace.get("__annotations__", {})
+
     for item in namespace.values():
         if not isinstance(item, decorators.ValidatorMethodWrapper):
             continue
@@ -281,6 +283,13 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
         if item.field_names:
             # Attach this validator to each named field.
             for field_name in item.field_names:
+                if (
+                    field_name in annotated_names
+                    and field_name not in metadata.field_validators
+                ):
+                    # Fields declared with PEP 526 annotations don't exist yet, and get
+                    # their validators from the `dataclass` decorator.
+                    continue
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From 000f7ae8e730fb2665a2478ec068a7328a9d026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 17/40] fix: don't rebind a parent's fields to its subclasses

Declaring a subclass changed the __objclass__ of the fields of the parent.
---
 binobj/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 984f8b7..7ec0a85 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -884,9 +884,10 @@ class Struct(HasStruct):
         setattr(cls, STRUCT_META_NAME, meta)
 
         # Set __objclass__ on all fields to aid type introspection. The `inspect` module
-        # uses this as an aid.
-        for field in meta.components.values():
-            field.__objclass__ = cls
+        # uses this as an aid. Inherited fields belong to the class declaring them.
+        for name, field in meta.components.items():
+            if name in vars(cls):
+                field.__objclass__ = cls
 
         super().__init_subclass__()
 
-- 
2.43.0


From ed06f754bf2e0b45945967f5d7d6f02ccea6f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 18/40] fix: apply Meta argument defaults to strings, floats
 and timestamps

Only integers took their byte order from the struct, and the documented
example with text encodings had no effect.
---
 binobj/fields/numeric.py    | 18 ++++++++++++++++++
 binobj/fields/stringlike.py | 19 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 4a2cbc8..bce291d 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -23,6 +23,7 @@ if TYPE_CHECKING:  # pragma: no cover
     from typing import Final
     from typing import Optional
 
+    from binobj.structures import StructMetadata
     from binobj.typedefs import EndianString
     from binobj.typedefs import StrDict
     from binobj.varints import VarIntEncoding
@@ -71,6 +72,8 @@ class Float(Field[float]):
     .. _format character: https://docs.python.org/3/library/struct.html#format-characters
     """
 
+    __overrideable_attributes__ = ("endian",)
+
     def __init__(
         self,
         *,
@@ -90,6 +93,19 @@ class Float(Field[float]):
                 f"`endian` must be 'big' or 'little', got {endian!r}.", field=self
             )
 
+    @override
+    def bind_to_container(
+        self,
+        struct_info: StructMetadata,
+        name: str,
+        index: int,
+        offset: Optional[int] = None,
+    ) -> None:
+        super().bind_to_container(struct_info, name, index, offset)
+        # The struct may have changed the byte order.
+        prefix = ">" if self.endian == "big" else "<"
+        self.format_string = prefix + self.format_string[1:]
+
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
@@ -396,6 +412,8 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
+    __overrideable_attributes__ = ("endian",)
+
     _RESOLUTION_UNITS: Final = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
 
     def __init__(
diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 4f98e8a..12c4c92 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -13,6 +13,7 @@ from typing_extensions import override
 from binobj import errors
 from binobj import helpers
 from binobj.fields.base import Field
+from binobj.fields.base import UNDEFINED
 
 
 if TYPE_CHECKING:  # pragma: no cover
@@ -20,6 +21,7 @@ if TYPE_CHECKING:  # pragma: no cover
     from typing import BinaryIO
     from typing import Optional
 
+    from binobj.structures import StructMetadata
     from binobj.typedefs import StrDict
 
 
@@ -77,6 +79,8 @@ class String(Field[str]):
     .. _ISO 8859-1: https://en.wikipedia.org/wiki/ISO/IEC_8859-1
     """
 
+    __overrideable_attributes__ = ("encoding",)
+
     def __init__(
         self,
         *,
@@ -98,6 +102,21 @@ class String(Field[str]):
         self.pad_byte = pad_byte
         super().__init__(**kwargs)
 
+    @override
+    def bind_to_container(
+        self,
+        struct_info: StructMetadata,
+        name: str,
+        index: int,
+        offset: Optional[int] = None,
+    ) -> None:
+        is_const = self.const is not UNDEFINED
+        sized_by_const = is_const and self._size == self._size_for_value(self.const)
+        super().bind_to_container(struct_info, name, index, offset)
+        if sized_by_const:
+            # The struct may have changed the encoding.
+            self._size = self._size_for_value(self.const)
+
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
-- 
2.43.0


From 723cdbbef9aa0f533ec15884653921bfbe87c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 19/40] fix: apply default and null values given in Meta
 argument defaults

---
 binobj/fields/base.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 4a4707d..fbceec8 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -412,6 +412,20 @@ class Field(Generic[T]):
                 )
             # Else: struct doesn't define a default value for this argument.
 
+        # Default and null values can be given for all fields, as long as the field
+        # doesn't have any other way to come up with its value.
+        prefix = type(self).__name__ + "__"
+        defaults = struct_info.argument_defaults
+
+        if self._default is UNDEFINED and not (self.factory or self._compute_fn):
+            self._default = defaults.get(
+                prefix + "default", defaults.get("default", UNDEFINED)
+            )
+        if self.null_value is UNDEFINED:
+            self.null_value = defaults.get(
+                prefix + "null_value", defaults.get("null_value", UNDEFINED)
+            )
+
     def compute_value_for_dump(
         self,
         all_values: StrDict,
-- 
2.43.0


From e40cdd38250fb15dc7b8262148e2b9d08f674158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 20/40] fix: make partial_dump write what a full dump does

Computed fields were considered missing, presence checks were ignored, and
fields whose size is given by another field couldn't be dumped.
---
 binobj/structures.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 7ec0a85..a49276f 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -766,21 +766,27 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        # Looking up the value of a field that has none crashes with the appropriate
+        # error, which means we can't use a plain dictionary.
+        data = collections.ChainMap(
+            self._to_dict_whatever_possible(context), MutableStructMappingProxy(self)
+        )
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
-            if value is fields.UNDEFINED:
+            try:
+                value = field.compute_value_for_dump(data, context)
+            except errors.MissingRequiredValueError:
                 # Field is missing from the dump data. If the caller wants us to dump
-                # only the fields that're defined, we can bail out now.
+                # only the fields that're defined, we can bail out now. Otherwise,
+                # caller wants us to dump up to and including ``last_field`` so we need
+                # to crash.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                raise
 
-            field.to_stream(stream, value, context)
+            if value is not fields.NOT_PRESENT:
+                value = recursive_to_dicts(value, True, context)
+                field.to_stream(stream, value, context, data)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From b3d9040fbee03a5dc1a9e65e9734a4c459143ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 21/40] fix: let a Union field dump the struct instances it
 loads

---
 binobj/fields/containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 5821040..affd677 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -495,6 +495,9 @@ class Union(Field[Any]):
         if isinstance(dumper, Field):
             dumper.to_stream(stream, data, context, all_fields)
         elif issubclass(dumper, Struct):
+            if isinstance(data, dumper):
+                data.to_stream(stream, context)
+                return
             if not isinstance(data, Mapping):
                 raise TypeError(
                     f"Cannot dump a non-Mapping-like object as a {dumper!r}: {data!r}",
-- 
2.43.0


From 6453eff6d6c0c9a0327bfc9fdf203eac8ecb1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 22/40] fix: don't pad the LEB128 encoding of -64, -8192 and so
 on

They took up one byte more than the format needs.
---
 binobj/varints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/varints.py b/binobj/varints.py
index b8d06c6..f9cc8aa 100644
--- a/binobj/varints.py
+++ b/binobj/varints.py
@@ -214,9 +214,10 @@ def encode_integer_leb128(value: int) -> bytes:
 
     # Calculate the number of bits in the integer and round up to the nearest multiple
     # of 7. We need to add 1 bit because bit_length() only returns the number of bits
-    # required to encode the magnitude, but not the sign.
+    # required to encode the magnitude, but not the sign. Two's complement has room for
+    # one more negative number than positive ones, so we need its complement for those.
 
-    n_bits = value.bit_length() + 1
+    n_bits = (value if value >= 0 else ~value).bit_length() + 1
     if n_bits % 7:
         n_bits += 7 - (n_bits % 7)
 
-- 
2.43.0


From 6d566c68d7588cc6f1e2e60e369b0f56ff9f1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 23/40] fix: pad the null value of sized StringZ fields

---
 binobj/fields/stringlike.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 12c4c92..61a3b2a 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -204,7 +204,11 @@ class StringZ(String):
     def _do_dump(
         self, stream: BinaryIO, data: str, context: object, all_fields: StrDict
     ) -> None:
-        stream.write((data + "\0").encode(self.encoding))
+        data += "\0"
+        if self.size is None:
+            stream.write(data.encode(self.encoding))
+        else:
+            stream.write(self._encode_and_resize(data, all_fields))
 
     def _size_for_value(self, value: str) -> int:
         return len((value + "\0").encode(self.encoding))
-- 
2.43.0


From 47bd4355b4cdc5aea0b42a3c9a12f6466f14e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 24/40] fix: to_dict() of structs loaded without their
 discarded fields

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index a49276f..3befbc3 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -485,14 +485,14 @@ class Struct(HasStruct):
             {
                 field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
-                if field.name not in dct
+                if field.name not in dct and (keep_discardable or not field.discard)
             }
         )
 
         if not keep_discardable:
             for field in self.__binobj_struct__.components.values():
                 if field.discard:
-                    del dct[field.name]
+                    dct.pop(field.name, None)
 
         return recursive_to_dicts(dct, keep_discardable, context)
 
-- 
2.43.0


From a9ed4df1540aba67537256531bbd82006a537e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 25/40] fix: comparing a struct to something else doesn't need
 its values

---
 binobj/structures.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 3befbc3..521b78b 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -868,13 +868,12 @@ class Struct(HasStruct):
             )
             return all(v is fields.UNDEFINED for v in self.__values__.values())
 
-        # Compare only defined values by using __iter__ to get the keys that are
-        # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in self})
-
         if not isinstance(other, (Struct, Mapping)):
             return False
 
+        # Compare only defined values by using __iter__ to get the keys that are
+        # defined.
+        self_values = recursive_to_dicts({n: self[n] for n in self})
         other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
-- 
2.43.0


From 4740d6cd9b4ead4fbafeef72a6738a7506e1b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 26/40] fix: apply defaults and Optional to annotations with
 field instances and structs

---
 binobj/pep526.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 6eec771..e813915 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -156,7 +156,7 @@ class AnnotationInfo:
             # We got a class object. Could be a struct or field, ignore everything else.
             if issubclass(self.type_class, Struct):
                 # A Struct class is shorthand for Nested(Struct).
-                return fields.Nested(self.type_class)
+                return self._with_defaults(fields.Nested(self.type_class))
             if issubclass(self.type_class, fields.Field):
                 # This is a Field class. Initialize it with only the arguments we're
                 # certain of. This gives us a Field instance.
@@ -173,7 +173,22 @@ class AnnotationInfo:
             return None
 
         # Else: The annotation is a field instance.
-        return self.type_class
+        return self._with_defaults(self.type_class)
+
+    def _with_defaults(self, field: Field[Any]) -> Field[Any]:
+        """Apply the annotation's default and nullability to an existing field."""
+        if (
+            self.default_value is not fields.UNDEFINED
+            and field._default is fields.UNDEFINED
+            and field.factory is None
+        ):
+            if callable(self.default_value):
+                field.factory = self.default_value
+            else:
+                field._default = self.default_value
+        if self.nullable and field.null_value is fields.UNDEFINED:
+            field.null_value = fields.DEFAULT
+        return field
 
 
 def dataclass(class_object: type[TStruct]) -> type[TStruct]:
-- 
2.43.0


From 00a6466bf912fe89b9a0a504adf16d3edc28a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 27/40] fix: set __objclass__ on fields declared with
 annotations

---
 binobj/pep526.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index e813915..4df4c0c 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -287,6 +287,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
         else:
             byte_offset = None
 
+        field_instance.__objclass__ = class_object
         meta.components[name] = field_instance
         meta.field_validators[name] = [
             item
-- 
2.43.0


From 9312dac05b465c4f9f925adfaf208f515c936b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 28/40] fix: refuse negative sizes when loading

A negative size read from the data made the field swallow everything left in
the stream, because that is what read() takes it to mean.
---
 binobj/fields/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index fbceec8..6c32293 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -1017,6 +1017,13 @@ class Field(Generic[T]):
 
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
+        if n_bytes < 0:
+            # `read()` would take this to mean "everything that's left".
+            raise errors.DeserializationError(
+                f"Size of {self} is negative: {n_bytes}",
+                field=self,
+                offset=offset,
+            )
 
         data_read = stream.read(n_bytes)
         if len(data_read) < n_bytes:
-- 
2.43.0


From da33957431b62cbfa4969703e2dfacfba27b46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 29/40] fix: report sizes no stream can have as unexpected EOF
 when loading

A size field of 2**63 or more made the field that has that size crash with
OverflowError, or MemoryError when its null value is determined by its size.
---
 binobj/fields/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 6c32293..46469cf 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -722,6 +722,10 @@ class Field(Generic[T]):
                 # determine the size, then we're out of luck.
                 if self.null_value is DEFAULT:
                     raise errors.CannotDetermineNullError(field=self) from None
+            except (MemoryError, OverflowError):
+                # The size we read is far larger than anything that could follow it.
+                # Trying to load the value will report that.
+                pass
             else:
                 potential_null_bytes = helpers.peek_bytes(stream, len(null_repr))
                 if potential_null_bytes == null_repr:
@@ -1025,7 +1029,12 @@ class Field(Generic[T]):
                 offset=offset,
             )
 
-        data_read = stream.read(n_bytes)
+        try:
+            data_read = stream.read(n_bytes)
+        except OverflowError:
+            # There's no stream that's this long.
+            data_read = b""
+
         if len(data_read) < n_bytes:
             raise errors.UnexpectedEOFError(field=self, size=n_bytes, offset=offset)
 
-- 
2.43.0


From e6a6661af46a5669413fdfb0ee2b4f8c12ae49fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 30/40] fix: pad null values given as deserialized values to
 the field's size

---
 binobj/fields/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 46469cf..c4372f9 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -862,8 +862,10 @@ class Field(Generic[T]):
 
         buf = io.BytesIO()
         self._do_dump(buf, data, context=context, all_fields=all_fields)
+        stream.write(self._fit_to_size(buf.getvalue(), all_fields))
 
-        serialized_value = buf.getvalue()
+    def _fit_to_size(self, serialized_value: bytes, all_fields: StrDict) -> bytes:
+        """Pad a serialized value to the field's size, or crash if it doesn't fit."""
         current_size = len(serialized_value)
         if self.has_fixed_size:
             expected_size = typing.cast(int, self.size)
@@ -880,7 +882,7 @@ class Field(Generic[T]):
         if size_diff < 0:
             serialized_value = self._add_padding(serialized_value, expected_size)
 
-        stream.write(serialized_value)
+        return serialized_value
 
     def _add_padding(self, serialized: bytes, to_size: int) -> bytes:  # noqa: ARG002
         """Given a serialized value, pad it out with bytes to the exact given length.
@@ -982,7 +984,7 @@ class Field(Generic[T]):
                 context=None,
                 all_fields=all_fields,
             )
-            return buf.getvalue()
+            return self._fit_to_size(buf.getvalue(), all_fields)
 
         # User wants us to use all null bytes for the default null value.
         try:
-- 
2.43.0


From 09271d42f5972cad57bf7d7e150d37f477a97ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 31/40] fix: crash creating constant fields of classes without
 _size_for_value()

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index c4372f9..ad30982 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -590,7 +590,7 @@ class Field(Generic[T]):
         """
         # Since this is called in the constructor we need to check to see if _size has
         # been assigned to yet.
-        if self.has_fixed_size and hasattr(self, "_size"):
+        if hasattr(self, "_size") and self.has_fixed_size:
             return typing.cast(int, self._size)
         return None
 
-- 
2.43.0


From bb8d7be1499a648b70bb91b3f099fcbefb9d49c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 32/40] fix: name the right struct when one inherits from
 several

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 521b78b..da46b14 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -119,7 +119,7 @@ class StructMetadata:
         ]
 
         if len(struct_bases) > 1:
-            raise errors.MultipleInheritanceError(struct=cls.__name__)
+            raise errors.MultipleInheritanceError(struct=struct_class.__name__)
 
         metadata = cls(name=struct_class.__name__)
         namespace = vars(struct_class)
-- 
2.43.0


From 2efc45dcde45565a9519fa9d69b4c617f254509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 33/40] fix: give copies of structs their own values

---
 binobj/structures.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index da46b14..739d225 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -880,6 +880,14 @@ class Struct(HasStruct):
     def __bytes__(self) -> bytes:
         return self.to_bytes()
 
+    def __copy__(self) -> Self:
+        # The copy must have its own set of values or assigning to its fields would
+        # change this struct as well.
+        instance = type(self).__new__(type(self))
+        vars(instance).update(vars(self))
+        instance.__values__ = dict(self.__values__)
+        return instance
+
     def __repr__(self) -> str:
         value_pairs = ", ".join(f"{k}={v!r}" for k, v in self.__values__.items())
         return f"{type(self).__qualname__}({value_pairs})"
-- 
2.43.0


From 6f4bd89cf0c765cb379d5df183b9aa887416cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 34/40] fix: refuse iterables without a length for a negative
 number of array elements

---
 binobj/fields/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index affd677..cceeb35 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -294,7 +294,7 @@ class Array(Field[list[Optional[T]]]):
         """Dump an unsized iterable into the stream."""
         n_written = 0
         for value in data:
-            if n_written == n_elems:
+            if n_elems is not None and n_written >= n_elems:
                 # We've already written the requisite number of items to the stream, but
                 # received at least one more item. Crash.
                 raise errors.ArraySizeError(
@@ -306,7 +306,7 @@ class Array(Field[list[Optional[T]]]):
             )
             n_written += 1
 
-        if n_elems is not None and n_written < n_elems:
+        if n_elems is not None and n_written != n_elems:
             raise errors.ArraySizeError(
                 field=self, n_expected=n_elems, n_given=n_written
             )
-- 
2.43.0


From 96f949145bc830e4d6cb3949a97b846cfff578af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 35/40] fix: support X | None in annotations

---
 binobj/pep526.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 4df4c0c..d479d54 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -35,6 +35,7 @@ Here are a few examples of how you can declare your fields::
 from __future__ import annotations
 
 import dataclasses
+import types
 import typing
 import warnings
 from typing import Any
@@ -114,8 +115,9 @@ class AnnotationInfo:
 
         # Handle Optional[T] which gets rendered as Union[T, type(None)].
         # We have to compare types directly with `is` because the type annotations don't
-        # support isinstance() and issubclass().
-        if typing.get_origin(type_class) is Union:
+        # support isinstance() and issubclass(). `T | None` has an origin of its own.
+        origin = typing.get_origin(type_class)
+        if origin is Union or origin is getattr(types, "UnionType", Union):
             # Filter out None from the type arguments.
             type_args = tuple(t for t in type_args if t is not type(None))
 
-- 
2.43.0


From 42a8131fe623dfe23385603fbbefdc45639bd961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 36/40] fix: keep the order of annotated fields that a base
 class annotates, too

---
 binobj/pep526.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index d479d54..ad26e3c 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -246,10 +246,10 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
     own_annotations = vars(class_object).get("__annotations__", {})
 
-    for name, raw_annotation in all_annotations.items():
-        if name not in own_annotations:
-            continue
-
+    # The order of `all_annotations` isn't that of the declarations if a base class has
+    # an annotation of the same name.
+    for name in own_annotations:
+        raw_annotation = all_annotations[name]
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From a09e2880d5b47257b5eea2fc058a01eac9dbcb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 37/40] fix: don't write null values of another size than a
 field's fixed one

---
 binobj/fields/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index ad30982..78c9c7b 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -968,6 +968,8 @@ class Field(Generic[T]):
             )
         if self.null_value not in (DEFAULT, None):
             if isinstance(self.null_value, bytes):
+                if self.has_fixed_size:
+                    return self._fit_to_size(self.null_value, all_fields)
                 return self.null_value
 
             # This is a bit of a hack. We can't call to_bytes() directly because that'll
-- 
2.43.0


From 231e0d4559fbf2e4bf923da98653c32c07fbc064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 38/40] fix: refuse integers and union members of another size
 than a field's fixed one

---
 binobj/fields/base.py       | 10 ++++++++++
 binobj/fields/containers.py | 11 +++++++++++
 binobj/fields/numeric.py    |  8 +++++++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 78c9c7b..ab1fc7f 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -1044,6 +1044,16 @@ class Field(Generic[T]):
 
         return data_read
 
+    def _check_fixed_size(self, value: Any, n_read: int, offset: int) -> None:
+        """Crash if a value that was just loaded isn't of the field's fixed size."""
+        # Another value than a constant field's is going to be refused as such.
+        if n_read != self.size and self.const in (UNDEFINED, value):
+            raise errors.DeserializationError(
+                f"The value of {self} takes up {n_read} bytes instead of {self.size}.",
+                field=self,
+                offset=offset,
+            )
+
     @overload
     def __get__(
         self, instance: None, owner: type[Struct]
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index cceeb35..0b24445 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -512,6 +512,17 @@ class Union(Field[Any]):
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
+    ) -> Any:
+        if not self.has_fixed_size:
+            return self._load_choice(stream, context, loaded_fields)
+
+        offset = stream.tell()
+        value = self._load_choice(stream, context, loaded_fields)
+        self._check_fixed_size(value, stream.tell() - offset, offset)
+        return value
+
+    def _load_choice(
+        self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index bce291d..817c8a7 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -269,7 +269,13 @@ class VariableLengthInteger(Integer):
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> int:
         """Load a variable-length integer from the given stream."""
-        return self._decode_integer_fn(stream)
+        if not self.has_fixed_size:
+            return self._decode_integer_fn(stream)
+
+        offset = stream.tell()
+        value = self._decode_integer_fn(stream)
+        self._check_fixed_size(value, stream.tell() - offset, offset)
+        return value
 
     @override
     def _do_dump(
-- 
2.43.0


From 0aa78e3d8a47637354a77693718bd04bfccf3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 39/40] fix: end arrays with a size but no count where their
 size says when loading

---
 binobj/fields/containers.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 0b24445..2be00c5 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -20,6 +20,7 @@ from typing_extensions import override
 from typing_extensions import TypeAlias
 
 from binobj import errors
+from binobj import helpers
 from binobj.fields.base import Field
 from binobj.fields.base import maybe_assign_name
 from binobj.fields.base import NOT_PRESENT
@@ -329,12 +330,30 @@ class Array(Field[list[Optional[T]]]):
         :rtype: list
         """
         result: list[Optional[T]] = []
-        while not self.halt_check(self, stream, result, context, loaded_fields):
+        start = size = None
+        if self.size is not None:
+            start = stream.tell()
+            size = self.get_expected_size(loaded_fields)
+
+        # Without a count, the size (if there is one) says where the array ends.
+        while (
+            size is None or self.count is not None or stream.tell() - start < size
+        ) and not self.halt_check(self, stream, result, context, loaded_fields):
             component = self.component.from_stream(stream, context, loaded_fields)
             if component is NOT_PRESENT:
                 continue
             result.append(component)
 
+        if size is not None:
+            n_read = stream.tell() - start
+            if n_read < size and not helpers.peek_bytes(stream, 1):
+                raise errors.UnexpectedEOFError(field=self, size=size, offset=start)
+            if n_read != size:
+                raise errors.DeserializationError(
+                    f"The elements of {self} take up {n_read} bytes instead of {size}.",
+                    field=self,
+                    offset=start,
+                )
         return result
 
 
-- 
2.43.0


From 8e0e934c8eda0d1aaf3ee99c6232c0fd6c4e09c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 40/40] fix: count null bytes as they are in the length of
 structs

---
 binobj/structures.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 739d225..d1871ec 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -845,6 +845,11 @@ class Struct(HasStruct):
 
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
+            elif isinstance(field.null_value, bytes) and (
+                current_fields.get(field.name, fields.UNDEFINED) is None
+            ):
+                # These are as long as they are, no matter what else gives the size.
+                size += len(field.null_value)
             else:
                 try:
                     size += field.get_expected_size(current_fields)
-- 
2.43.0

