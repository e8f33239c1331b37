#!/usr/bin/env python3
"""Development tool: rewrites that keep the behaviour; every check has to stay quiet on them.

  refactors.py [group ...] [--props=C01,C02]     (run it through rsbox: RUN=refactors.py rsbox.sh DIR ...)
"""
import os, subprocess, sys, time

P = "runtime/src/protocol.rs"; T = "runtime/src/types.rs"; M = "runtime/src/macros.rs"; U = "runtime/src/uleb.rs"; ER = "runtime/src/error.rs"
L = "parquet/src/lib.rs"; EN = "parquet/src/encodings.rs"; S = "parquet/src/bin/schema.rs"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
G = {}

G["input"] = [
 # one loop for all elements
 (P, """    let (len, element_type) = read_collection_len_and_type(input)?;
    match element_type {
        1..=3 => {
            // TRUE, FALSE, i8 stored as single byte
            for _ in 0..len {
                let _ = input.read_byte()?;
            }
        }
        4..=6 => {
            // since we do not error on overlong sequences,
            // skipping for all integer types works the same.
            for _ in 0..len {
                input.skip_integer()?;
            }
        }
        7 => {
            for _ in 0..len {
                input.read_double()?;
            }
        }
        8 => {
            // thrift does not distinguish binary and string types in field_type,
            // consequently there is no utf8 validation for skipped strings.
            for _ in 0..len {
                input.skip_binary()?;
            }
        }
        9 | 10 => {
            // list | set
            for _ in 0..len {
                skip_collection(input, depth)?;
            }
        }
        11 => {
            // map
            for _ in 0..len {
                skip_map(input, depth)?;
            }
        }
        12 => {
            for _ in 0..len {
                skip_field_with_depth(input, 12, false, depth)?;
            }
        }
        _ => {
            return Err(ThriftError::InvalidType)
        }
    }
    Ok(())
""", """    let (len, element_type) = read_collection_len_and_type(input)?;
    if !(1..=12).contains(&element_type) {
        return Err(ThriftError::InvalidType);
    }
    (0..len).try_for_each(|_| skip_field_with_depth(input, element_type, true, depth))
"""),
 # a number decoded with another loop
 (U, """    let mut shift = 0_u32;
    let mut value = 0_u64;
    loop {
        let byte = input.read_byte()?;

        // overlong sequences are not treated as an error for performance reasons
        value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
        shift = shift.wrapping_add(7);

        if (byte & 0x80) == 0 {
            return Ok(value);
        }
    }
""", """    let mut byte = input.read_byte()?;
    let mut value = (byte & 0x7F) as u64;
    let mut shift = 0_u32;
    while byte >= 0x80 {
        byte = input.read_byte()?;
        shift = shift.wrapping_add(7);
        // overlong sequences are not treated as an error for performance reasons
        value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
    }
    Ok(value)
"""),
 (U, """    let mut i = 0_usize;
    while i < input.len() && (input[i] & 0x80) != 0 {
        i += 1;
    }
    input.get(i+1..)
""", """    let end = input.iter().position(|byte| byte & 0x80 == 0)?;
    Some(&input[end + 1..])
"""),
 # helper for limits
 (P, """impl<R: Read + ?Sized> CompactThriftInput<'static> for R {
""", """fn read_binary_len<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<usize, ThriftError> {
    match input.read_len()? {
        len if len <= MAX_BINARY_LEN => Ok(len),
        len => Err(ThriftError::InvalidBinaryLen(len)),
    }
}

impl<R: Read + ?Sized> CompactThriftInput<'static> for R {
"""),
 (P, """        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut buf = vec![0; len];
""", """        let len = read_binary_len(self)?;
        let mut buf = vec![0; len];
"""),
 (P, """        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        let (first, rest) = std::mem::take(&mut self.0).split_at(len);
        self.0 = rest;
        Ok(Cow::Borrowed(first))
""", """        let len = read_binary_len(self)?;
        let (first, rest) = self.0.split_at_checked(len).ok_or(ErrorKind::UnexpectedEof)?;
        self.0 = rest;
        Ok(first.into())
"""),
 (P, """        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = &self.0[len..];
        Ok(())
""", """        self.read_binary().map(|_| ())
"""),
 (P, """        let binary = self.read_binary()?;
        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
        // Safety: just checked for valid utf8
        unsafe {
            match binary {
                Cow::Owned(v) => Ok(Cow::Owned(String::from_utf8_unchecked(v))),
                Cow::Borrowed(v) => Ok(Cow::Borrowed(from_utf8_unchecked(v))),
            }
        }
""", """        match self.read_binary()? {
            Cow::Owned(v) => String::from_utf8(v).map(Cow::Owned).map_err(|_| ThriftError::InvalidString),
            Cow::Borrowed(v) => from_utf8(v).map(Cow::Borrowed).map_err(|_| ThriftError::InvalidString),
        }
"""),
 (P, "use std::str::from_utf8_unchecked;\n", ""),
 # field headers
 (P, """        let field_type = field_header & 0x0F;
        let field_delta = field_header >> 4;
        if field_delta != 0 {
            *last_field_id = last_field_id.checked_add(field_delta as i16).ok_or(ThriftError::InvalidNumber)?;
        } else {
            *last_field_id = read_full_field_id(self)?;
        }

        Ok(field_type)
""", """        *last_field_id = match field_header >> 4 {
            0 => read_full_field_id(self)?,
            delta => i16::try_from(*last_field_id as i32 + delta as i32).map_err(|_| ThriftError::InvalidNumber)?,
        };

        Ok(field_header & 0x0F)
"""),
]

G["nosimd"] = [
 (P, """    #[inline]
    #[cfg(target_feature = "sse2")]
    fn skip_integer(&mut self) -> Result<(), ThriftError> {
        if self.0.len() >= 16 {
            let rest = unsafe { skip_uleb_sse2(self.0) };
            if rest.len() < self.0.len() {
                self.0 = rest;
                return Ok(())
            }
        }
        self.0""", """    #[inline]
    fn skip_integer(&mut self) -> Result<(), ThriftError> {
        self.0"""),
 (U, "#[cfg(target_feature = \"sse2\")]\n", "#[cfg(target_feature = \"sse2\")]\n#[allow(dead_code)]\n"),
 # streams: read in pieces, skip without keeping the content
 (P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
    }
""", """        let mut buf = Vec::new();
        while buf.len() < len {
            let have = buf.len();
            buf.resize(len.min(have + 65536), 0);
            self.read_exact(&mut buf[have..])?;
        }
        Ok(buf.into())
    }

    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let mut len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut buf = [0_u8; 512];
        while len > 0 {
            let n = len.min(buf.len());
            self.read_exact(&mut buf[..n])?;
            len -= n;
        }
        Ok(())
    }
"""),
 # the sizes of lists: loops with another counter, a value at a time
 (T, """            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
""", """            let mut element = P::default();
            element.fill_thrift(input)?;
            self.push(element);
"""),
 (T, """        self.iter().try_for_each(|value| {
            value.write_thrift(output)
        })
""", """        for value in self {
            value.write_thrift(output)?;
        }
        Ok(())
"""),
 (T, """        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift(input)?;
        }
        Ok(())
""", """        self.insert(P::default()).fill_thrift(input)
"""),
 (T, """        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift_field(input, field_type)?;
        }
        Ok(())
""", """        let value = self.get_or_insert_with(P::default);
        value.fill_thrift_field(input, field_type)
"""),
]

G["output"] = [
 (P, """    match field_id.checked_sub(*last_field_id) {
        Some(field_delta @ 1..=15) => {
            output.write_byte(field_type | ((field_delta as u8) << 4))?;
        }
        _ => {
            output.write_byte(field_type)?;
            output.write_i16(field_id)?
        }
    }
    *last_field_id = field_id;
    Ok(())
""", """    let field_delta = field_id as i32 - std::mem::replace(last_field_id, field_id) as i32;
    if field_delta <= 0 || field_delta > 15 {
        output.write_byte(field_type)?;
        return output.write_i16(field_id);
    }
    output.write_byte((field_delta as u8) << 4 | field_type)
"""),
 (P, """        self.write_all(&[value])?;
        Ok(())
""", """        let bytes = [value];
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            match self.write(rest) {
                Ok(0) => return Err(ErrorKind::WriteZero.into()),
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
        Ok(())
"""),
 # numbers are written with a single call
 (P, """        encode_uleb(self, zigzag_encode16(value) as _)
""", """        let (bytes, len) = uleb_bytes(zigzag_encode16(value) as _);
        self.write_all(&bytes[..len])?;
        Ok(())
"""),
 (P, """        encode_uleb(self, zigzag_encode32(value) as _)
""", """        let (bytes, len) = uleb_bytes(zigzag_encode32(value) as _);
        self.write_all(&bytes[..len])?;
        Ok(())
"""),
 (P, """        encode_uleb(self, zigzag_encode64(value) as _)
""", """        let (bytes, len) = uleb_bytes(zigzag_encode64(value) as _);
        self.write_all(&bytes[..len])?;
        Ok(())
"""),
 (P, """impl <W: Write> CompactThriftOutput for W {
""", """fn uleb_bytes(mut value: u64) -> ([u8; 10], usize) {
    let mut bytes = [0_u8; 10];
    let mut len = 0;
    loop {
        bytes[len] = (value & 0x7F) as u8;
        value >>= 7;
        if value == 0 {
            return (bytes, len + 1);
        }
        bytes[len] |= 0x80;
        len += 1;
    }
}

impl <W: Write> CompactThriftOutput for W {
"""),
 # header of lists in a helper
 (T, """        if len < 15 {
            let header = P::FIELD_TYPE | ((len as u8) << 4);
            output.write_byte(header)?;
        } else {
            output.write_byte(P::FIELD_TYPE | 0xF0)?;
            output.write_len(len)?;
        }
        self.iter()""", """        write_list_header(output, len, P::FIELD_TYPE)?;
        self.iter()"""),
 (T, """impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Vec<P> {
""", """fn write_list_header<T: CompactThriftOutput>(output: &mut T, len: usize, element_type: u8) -> Result<(), ThriftError> {
    match len {
        0..=14 => output.write_byte((len as u8) << 4 | element_type),
        _ => {
            output.write_byte(0xF0 | element_type)?;
            output.write_len(len)
        }
    }
}

impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Vec<P> {
"""),
 (T, """        if let Some(value) = self.as_ref() {
            value.write_thrift(output)
        } else {
            Err(ThriftError::MissingValue)
        }
""", """        self.as_ref().ok_or(ThriftError::MissingValue)?.write_thrift(output)
"""),
 (T, """        let value = 1 + (!*self) as u8;
        output.write_byte(value)
""", """        output.write_byte(if *self { 1 } else { 2 })
"""),
 (T, """        *self = match input.read_string()? {
            Cow::Borrowed(s) => Arc::from(s),
            Cow::Owned(s) => Arc::from(s),
        };
""", """        *self = Arc::from(input.read_string()?.as_ref());
"""),
 (T, """        *self = byte == 1;
""", """        *self = matches!(byte, 1);
"""),
]

G["macros"] = [
 (M, """                loop {
                    let field_type = input.read_field_header(&mut last_field_id)?;
                    if field_type == 0 {
                        break;
                    }

                    match last_field_id {
                        $($field_id => {
                            $crate::__thrift_required_set!($required_or_optional $field_name);
                            self.$field_name.fill_thrift_field(input, field_type)?;
                        }),*
                        _ => {
                            input.skip_field(field_type)?;
                        }
                    }
                }
""", """                let mut field_type = input.read_field_header(&mut last_field_id)?;
                while field_type != 0 {
                    match last_field_id {
                        $($field_id => {
                            self.$field_name.fill_thrift_field(input, field_type)?;
                            $crate::__thrift_required_set!($required_or_optional $field_name);
                        }),*
                        _ => {
                            input.skip_field(field_type)?;
                        }
                    }
                    field_type = input.read_field_header(&mut last_field_id)?;
                }
"""),
 (M, """                output.write_byte(0)?;
                Ok(())
            }
        }
    }
}

/// Generate the type and `CompactThriftProtocol` implementation for a thrift `union`.""", """                output.write_byte(0)
            }
        }
    }
}

/// Generate the type and `CompactThriftProtocol` implementation for a thrift `union`."""),
 (M, """                        *self = Self::$field_name(Default::default());
                        #[allow(unreachable_patterns)]
                        match self {
                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                            _ => unsafe { std::hint::unreachable_unchecked() },
                        }
""", """                        let mut inner: $crate::__thrift_field_type!($field_type $($element_type)?) = Default::default();
                        inner.fill_thrift_field(input, field_type)?;
                        *self = Self::$field_name(inner);
"""),
 (M, """                let stop = input.read_byte()?;
                if stop != 0 {
                    return Err($crate::ThriftError::MissingStop)
                }

                Ok(())
""", """                match input.read_byte()? {
                    0 => Ok(()),
                    _ => Err($crate::ThriftError::MissingStop),
                }
"""),
 (M, """        #[derive(Default, Debug, Copy, Clone, Eq, Hash, Ord, PartialEq, PartialOrd)]
        #[allow(non_camel_case_types)]
        pub struct $identifier(pub i32);
""", """        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[allow(non_camel_case_types)]
        #[repr(transparent)]
        pub struct $identifier(pub i32);
"""),
 (M, "__thrift_required_flag", "__thrift_flag_for_required", 0),
]

G["parquet"] = [
 (L, """    let _pos = input.seek(SeekFrom::End(-8))?;
    let mut footer = [0_u8; 8];
    input.read_exact(&mut footer)?;
    if footer[4..] != PARQUET_MAGIC {
        return Err(ParquetError::InvalidMagic);
    }

    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;

    let mut buf = vec![0; metadata_len];
    input.read_exact(&mut buf)?;
    Ok(buf)
""", """    let end = input.seek(SeekFrom::End(0))?;
    let footer_start = end.checked_sub(8).ok_or(ParquetError::InvalidMagic)?;
    input.seek(SeekFrom::Start(footer_start))?;
    let (mut metadata_len, mut magic) = ([0_u8; 4], [0_u8; 4]);
    input.read_exact(&mut metadata_len)?;
    input.read_exact(&mut magic)?;
    if magic != PARQUET_MAGIC {
        return Err(ParquetError::InvalidMagic);
    }

    let metadata_len = u32::from_le_bytes(metadata_len) as u64;
    let start = footer_start.checked_sub(metadata_len).ok_or(ParquetError::InvalidOffset)?;
    input.seek(SeekFrom::Start(start))?;

    let mut buf = Vec::with_capacity(metadata_len as usize);
    if input.take(metadata_len).read_to_end(&mut buf)? as u64 != metadata_len {
        return Err(ParquetError::Io(std::io::ErrorKind::UnexpectedEof.into()));
    }
    Ok(buf)
"""),
 (L, """    let mut min = usize::MAX;
    let mut max = 0_usize;

    for rg in &file_metadata.row_groups {
        for c in &rg.columns {
            if let (Some(oo), Some(ol), Some(co), Some(cl)) = (c.offset_index_offset, c.offset_index_length, c.column_index_offset, c.column_index_length) {
                if oo < 0 || ol < 0 || co < 0 || cl < 0 {
                    return Err(ParquetError::InvalidOffset);
                }

                min = min.min(oo as usize);
                max = max.max(oo as usize + ol as usize);

                min = min.min(co as usize);
                max = max.max(co as usize + cl as usize);
            }
        }
    }

    if min < max {
        Ok(Some(min..max))
    } else {
        Ok(None)
    }
""", """    let mut range: Option<Range<usize>> = None;

    for c in file_metadata.row_groups.iter().flat_map(|rg| &rg.columns) {
        let indexes = (c.offset_index_offset.zip(c.offset_index_length), c.column_index_offset.zip(c.column_index_length));
        if let (Some(offset_index), Some(column_index)) = indexes {
            for (offset, length) in [offset_index, column_index] {
                let start = usize::try_from(offset).map_err(|_| ParquetError::InvalidOffset)?;
                let end = start + usize::try_from(length).map_err(|_| ParquetError::InvalidOffset)?;
                range = Some(match range {
                    Some(r) => r.start.min(start)..r.end.max(end),
                    None => start..end,
                });
            }
        }
    }

    Ok(range.filter(|r| !r.is_empty()))
"""),
 (L, """    column_chunks.iter().map(|cc| {
        let (offset_index_bytes, column_index_bytes) = if let""", """    let mut result = Vec::with_capacity(column_chunks.len());
    for cc in column_chunks {
        let (offset_index_bytes, column_index_bytes) = if let"""),
 (L, """        } else {
            return Ok(None)
        };

        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));

        match &mut res {
            Ok(Some((offset_index, column_index))) => {
                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_bytes))?;
                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_bytes))?;
            }
            _ => unsafe { unreachable_unchecked() }
        }

        res
    }).collect()
}
""", """        } else {
            result.push(None);
            continue;
        };

        let offset_index = OffsetIndex::read_thrift(&mut CompactThriftInputSlice::new(offset_index_bytes))?;
        let column_index = ColumnIndex::read_thrift(&mut CompactThriftInputSlice::new(column_index_bytes))?;
        result.push(Some((offset_index, column_index)));
    }
    Ok(result)
}
"""),
 (L, "use std::hint::unreachable_unchecked;\n", ""),
 (EN, """        let mut mask = 0_u32;
        for _ in 0..len as usize {
            let value = input.read_i32()?;
            if value < 0 || value >= 31 {
                return Err(ThriftError::InvalidNumber);
            }
            mask |= 1 << value;
        }
        self.0 = mask;

        Ok(())
""", """        self.0 = (0..len).try_fold(0_u32, |mask, _| match input.read_i32()? {
            value @ 0..=30 => Ok(mask | 1 << value),
            _ => Err(ThriftError::InvalidNumber),
        })?;

        Ok(())
"""),
 (EN, """        let mut mask = self.0;
        std::iter::from_fn(move || {
            if mask == 0 {
                None
            } else {
                let encoding = Encoding(mask.trailing_zeros() as i32);
                mask &= mask - 1;
                Some(encoding)
            }
        })
""", """        let mask = self.0;
        (0..32).filter(move |bit| mask >> bit & 1 == 1).map(Encoding)
"""),
 (EN, """        for item in self.iter() {
            output.write_i32(item.0)?;
        }
        Ok(())
""", """        self.iter().try_for_each(|item| item.write_thrift(output))
"""),
 (S, """        let mut i = 0;
        while i < num_children {
            let (child_field, remainder) =
                convert_schema_inner(remainder_elements, index, def_level, rep_level, nesting)?;
            remainder_elements = remainder;
            children.push(child_field);
            i += 1;
        }
""", """        for _ in 0..num_children {
            let (child_field, remainder) =
                convert_schema_inner(remainder_elements, index, def_level, rep_level, nesting)?;
            children.push(child_field);
            remainder_elements = remainder;
        }
"""),
 (S, """    for _ in 0..indent {
        print!("  ");
    }
""", """    print!("{:1$}", "", 2 * indent);
"""),
 (S, """            print!("{} group {}", field.common.repetition, field.common.name);
            if let Some(logical_type) = field.logical_type {
                print!(" ({logical_type:?})")
            }

            println!(" {{");
""", """            let annotation = field.logical_type.map(|t| format!(" ({t:?})")).unwrap_or_default();
            println!("{} group {}{annotation} {{", field.common.repetition, field.common.name);
"""),
 (S, """        let mut logical_type: Option<PrimitiveLogicalType> = None;
        if let Some(lt) = element.logicalType.as_ref() {
            logical_type = PrimitiveLogicalType::try_from_logical_type(lt).ok();
        }
        if logical_type.is_none() {
            if let Some(ct) = element.converted_type.as_ref() {
                logical_type = PrimitiveLogicalType::try_from_converted_type(
                    ct,
                    element.precision,
                    element.scale,
                    element.type_length,
                )
                .ok();
            }
        }
""", """        let from_logical = element.logicalType.as_ref().and_then(|lt| PrimitiveLogicalType::try_from(lt).ok());
        let from_converted = || {
            let ct = element.converted_type.as_ref()?;
            PrimitiveLogicalType::try_from_converted_type(ct, element.precision, element.scale, element.type_length).ok()
        };
        let logical_type = from_logical.or_else(from_converted);
"""),
]

# an explicit stack instead of recursion
G["stack"] = [
 (P, """pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
    skip_field_with_depth(input, field_type, inside_collection, MAX_SKIP_DEPTH)
}
""", """enum Pending {
    Elements(u32, u8),
    Entries(u32, u8, u8, bool),
    Fields(i16),
}

fn open_level<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8) -> Result<Pending, ThriftError> {
    match field_type {
        9 | 10 => {
            let (len, element_type) = read_collection_len_and_type(input)?;
            if !(1..=12).contains(&element_type) {
                return Err(ThriftError::InvalidType);
            }
            Ok(Pending::Elements(len, element_type))
        }
        11 => {
            let (len, key_type, val_type) = read_map_len_and_types(input)?;
            Ok(Pending::Entries(len, key_type, val_type, false))
        }
        _ => Ok(Pending::Fields(0)),
    }
}

/// Skips a value with an explicit stack of what is still open.
pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
    if !(9..=12).contains(&field_type) {
        return skip_field_with_depth(input, field_type, inside_collection, MAX_SKIP_DEPTH);
    }
    let mut stack: [Pending; MAX_SKIP_DEPTH] = [const { Pending::Fields(0) }; MAX_SKIP_DEPTH];
    stack[0] = open_level(input, field_type)?;
    let mut depth = 1;
    while depth > 0 {
        let (next, in_collection) = match &mut stack[depth - 1] {
            Pending::Elements(0, _) | Pending::Entries(0, _, _, _) => {
                depth -= 1;
                continue;
            }
            Pending::Elements(n, element_type) => {
                *n -= 1;
                (*element_type, true)
            }
            Pending::Entries(n, key_type, val_type, value) => {
                *value = !*value;
                if *value {
                    (*key_type, true)
                } else {
                    *n -= 1;
                    (*val_type, true)
                }
            }
            Pending::Fields(last_field_id) => match input.read_field_header(last_field_id)? {
                0 => {
                    depth -= 1;
                    continue;
                }
                field_type => (field_type, false),
            },
        };
        if (9..=12).contains(&next) {
            if depth == MAX_SKIP_DEPTH {
                return Err(ThriftError::NestingTooDeep);
            }
            stack[depth] = open_level(input, next)?;
            depth += 1;
        } else {
            skip_field_with_depth(input, next, in_collection, 1)?;
        }
    }
    Ok(())
}
"""),
 (P, "fn skip_collection<", "#[allow(dead_code)]\nfn skip_collection<"),
]

G["state"] = [
 # values are built apart and then stored
 (T, """            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift(input)?;
""", """            let mut value = P::default();
            value.fill_thrift(input)?;
            std::ptr::write(self as *mut _, Some(value));
"""),
 (T, """        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift_field(input, field_type)?;
        }
        Ok(())
""", """        let mut value = P::default();
        value.fill_thrift_field(input, field_type)?;
        *self = Some(value);
        Ok(())
"""),
 (T, """        self.clear();
        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;

        for _ in 0..len as usize {
            // workaround for unnecessary memcpy calls when using Vec::push(P::default()) with larger structs
            // https://github.com/rust-lang/rust/issues/125632
            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }

        Ok(())
""", """        let mut values = Vec::new();
        values.try_reserve_exact((len as usize).min(4096)).map_err(|_| ThriftError::ReserveError)?;
        while values.len() < len as usize {
            let mut value = P::default();
            value.fill_thrift(input)?;
            if values.len() == values.capacity() {
                values.try_reserve(1).map_err(|_| ThriftError::ReserveError)?;
            }
            values.push(value);
        }
        *self = values;
        Ok(())
"""),
 (T, """        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
""", """        match Rc::get_mut(self) {
            Some(value) => value.fill_thrift(input),
            None => Err(ThriftError::DuplicateField),
        }
"""),
 (T, """        *self = match input.read_string()? {
            Cow::Borrowed(s) => Arc::from(s),
            Cow::Owned(s) => Arc::from(s),
        };
        Ok(())
""", """        *self = Arc::from(&*input.read_string()?);
        Ok(())
"""),
 (T, """        *self = input.read_string()?.into_owned();
""", """        let value = input.read_string()?;
        self.clear();
        match value {
            Cow::Owned(value) => *self = value,
            Cow::Borrowed(value) => self.push_str(value),
        }
"""),
]

G["io"] = [
 # streams are read and written without the helpers of std
 (P, """        let mut buf = [0_u8; 1];
        self.read_exact(&mut buf)?;
        Ok(buf[0])
""", """        let mut buf = [0_u8; 1];
        loop {
            match self.read(&mut buf) {
                Ok(1) => return Ok(buf[0]),
                Ok(_) => return Err(ErrorKind::UnexpectedEof.into()),
                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) => return Err(e.into()),
            }
        }
"""),
 (P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        let mut buf = Vec::new();
        let mut chunk = [0_u8; 2048];
        while buf.len() < len {
            let part = (len - buf.len()).min(chunk.len());
            match self.read(&mut chunk[..part]) {
                Ok(0) => return Err(ErrorKind::UnexpectedEof.into()),
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
        Ok(buf.into())
"""),
 (P, """        if value.len() > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(value.len()));
        }
        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())
""", """        if value.len() > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(value.len()));
        }
        if value.len() < 64 {
            // short texts in one piece
            let mut buf = [0; 65];
            buf[0] = value.len() as u8;
            buf[1..=value.len()].copy_from_slice(value);
            return self.write_all(&buf[..=value.len()]).map_err(ThriftError::from);
        }
        self.write_len(value.len())?;
        for part in value.chunks(1 << 16) {
            self.write_all(part)?;
        }
        Ok(())
"""),
 (P, """            output.write_byte(field_type)?;
            output.write_i16(field_id)?
        }
    }
    *last_field_id = field_id;
    Ok(())
""", """            output.write_byte(field_type)?;
            encode_uleb_of(output, zigzag_encode16(field_id) as u64)?;
        }
    }
    *last_field_id = field_id;
    return Ok(());

    fn encode_uleb_of<T: CompactThriftOutput + ?Sized>(output: &mut T, mut value: u64) -> Result<(), ThriftError> {
        loop {
            let byte = (value & 0x7F) as u8;
            value >>= 7;
            if value == 0 {
                return output.write_byte(byte);
            }
            output.write_byte(byte | 0x80)?;
        }
    }
"""),
]

G["pq2"] = [
 (L, """    let _pos = input.seek(SeekFrom::End(-8))?;
    let mut footer = [0_u8; 8];
    input.read_exact(&mut footer)?;
    if footer[4..] != PARQUET_MAGIC {
        return Err(ParquetError::InvalidMagic);
    }

    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;

    let mut buf = vec![0; metadata_len];
    input.read_exact(&mut buf)?;
    Ok(buf)
""", """    // usually everything is in the last part of the file
    let end = input.seek(SeekFrom::End(0))?;
    let tail_len = end.min(16 * 1024) as usize;
    input.seek(SeekFrom::Start(end - tail_len as u64))?;
    let mut tail = vec![0; tail_len];
    input.read_exact(&mut tail)?;
    let Some((rest, footer)) = tail.split_last_chunk::<8>() else {
        return Err(ParquetError::InvalidMagic);
    };
    if footer[4..] != PARQUET_MAGIC {
        return Err(ParquetError::InvalidMagic);
    }
    let metadata_len = u32::from_le_bytes([footer[0], footer[1], footer[2], footer[3]]) as usize;
    if metadata_len <= rest.len() {
        return Ok(rest[rest.len() - metadata_len..].to_vec());
    }
    let start = (end - 8).checked_sub(metadata_len as u64).ok_or(ParquetError::InvalidOffset)?;
    input.seek(SeekFrom::Start(start))?;
    let mut buf = vec![0; metadata_len];
    input.read_exact(&mut buf)?;
    Ok(buf)
"""),
 (L, """        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));

        match &mut res {
            Ok(Some((offset_index, column_index))) => {
                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_bytes))?;
                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_bytes))?;
            }
            _ => unsafe { unreachable_unchecked() }
        }

        res
""", """        let column_index = ColumnIndex::read_thrift(&mut CompactThriftInputSlice::new(column_index_bytes));
        let offset_index = OffsetIndex::read_thrift(&mut CompactThriftInputSlice::new(offset_index_bytes));
        if false {
            unsafe { unreachable_unchecked() }
        }
        Ok(Some((offset_index?, column_index?)))
"""),
 (EN, """        let mut mask = self.0;
        std::iter::from_fn(move || {
            if mask == 0 {
                None
            } else {
                let encoding = Encoding(mask.trailing_zeros() as i32);
                mask &= mask - 1;
                Some(encoding)
            }
        })
""", """        let mask = self.0;
        (0..32).filter(move |bit| mask >> bit & 1 == 1).map(Encoding)
"""),
 (EN, """        let mut mask = 0_u32;
        for _ in 0..len as usize {
            let value = input.read_i32()?;
            if value < 0 || value >= 31 {
                return Err(ThriftError::InvalidNumber);
            }
            mask |= 1 << value;
        }
        self.0 = mask;

        Ok(())
""", """        *self = Self::default();
        for _ in 0..len {
            match input.read_i32()? {
                value @ 0..=30 => self.0 |= 1_u32 << value,
                _ => return Err(ThriftError::InvalidNumber),
            }
        }
        Ok(())
"""),
 (S, """            for child in &field.children {
                pretty_print_schema(child, indent + 1);
            }
""", """            field.children.iter().for_each(|child| pretty_print_schema(child, indent + 1));
"""),
 (S, """    for _ in 0..indent {
        print!("  ");
    }
""", """    print!("{:1$}", "", indent * 2);
"""),
 (S, """    let data = get_metadata_chunk(&mut file).unwrap();
    let mut input = CompactThriftInputSlice::new(&data);

    let fmd = FileMetaData::read_thrift(&mut input).unwrap();
""", """    let data = get_metadata_chunk(&mut file).expect("metadata");
    let mut fmd = FileMetaData::default();
    fmd.fill_thrift(&mut CompactThriftInputSlice::new(&data)).expect("FileMetaData");
    let schema = convert_schema(&fmd.schema).expect("schema");
"""),
 (S, """    let schema = convert_schema(&fmd.schema).unwrap();

""", ""),
]

G["macro2"] = [
 (M, """    (required $field_name:ident) => { let mut $field_name = false; };
""", """    (required $field_name:ident) => { let mut $field_name = 0_u8; };
"""),
 (M, """    (required $field_name:ident) => { $field_name = true; };
""", """    (required $field_name:ident) => { $field_name |= 1; };
"""),
 (M, """        if !$field_name {
""", """        if $field_name == 0 {
"""),
 (M, """                if field_type == 0 {
                    return Err($crate::ThriftError::InvalidType);
                }

                match last_field_id {""", """                match last_field_id {
                    _ if field_type == 0 => return Err($crate::ThriftError::InvalidType),"""),
 (M, """                let mut last_field_id = 0_i16;
                match self {
                    $(Self::$field_name(inner) => inner.write_thrift_field(output, $field_id, &mut last_field_id)?),*
                }
                output.write_byte(0)?;
                Ok(())
""", """                match self {
                    $(Self::$field_name(inner) => inner.write_thrift_field(output, $field_id, &mut 0_i16)?,)*
                }
                output.write_byte(0)
"""),
 (M, """                self.0 = input.read_i32()?;
                Ok(())
""", """                i32::fill_thrift(&mut self.0, input)
"""),
 (ER, """        unsafe { Debug::fmt(CStr::from_ptr(self.name), f) }
""", """        // Safety: constructed from null-terminated strings
        let name = unsafe { CStr::from_ptr(self.name) };
        write!(f, "{name:?}")
"""),
 (U, """    while value > 0x7F {
        output.write_byte((value as u8) | 0x80)?;
        value >>= 7;
    }
    output.write_byte(value as u8)
""", """    loop {
        let byte = value as u8 & 0x7F;
        value >>= 7;
        if value == 0 {
            break output.write_byte(byte);
        }
        output.write_byte(byte | 0x80)?;
    }
"""),
]


def main():
    groups = [a for a in sys.argv[1:] if not a.startswith("--")] or list(G)
    props = next((a[8:].split(",") for a in sys.argv[1:] if a.startswith("--props=")), ["C%02d" % i for i in range(1, 25) if i != 22])
    for g in groups:
        try:
            for f, old, new, *n in G[g]:
                path = os.path.join(REPO, f)
                s = open(path).read()
                if (s.count(old) != 1) if not n else (s.count(old) == 0):
                    print(g, "DOES NOT APPLY", f, s.count(old), old[:100], flush=True)
                    break
                open(path, "w").write(s.replace(old, new))
            else:
                e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR="/tmp/refactor-target", CARGO_NET_OFFLINE="true")
                r = subprocess.run(["cargo", "test", "--workspace", "--offline"], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    print(g, "TESTS FAIL", r.stdout[-3000:], flush=True)
                    continue
                for q in props:
                    t = time.time()
                    r = subprocess.run([sys.executable, V + "/check.py", q], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=V)
                    msg = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
                    print(f"{g} {q} rc={r.returncode} {time.time() - t:.0f}s {'' if r.returncode == 0 else 'ALARM '}{(msg or ['?'])[-1][:400]}", flush=True)
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])


main()
