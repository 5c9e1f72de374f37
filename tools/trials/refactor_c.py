P='src/packets/mod.rs'; U='src/packets/utils.rs'; F='src/packets/headers/fixed_header.rs'; K='src/packets/headers/connect.rs'; E='src/packets/enums.rs'
SUBL='''                let mut tuples = Vec::new();
                while len > 0 {
                    let topic = unpack_string(iter)?;
                    len -= topic.len() + size_of::<u16>();

                    let qos = QosLevel::try_from(
                        *iter.next().ok_or_else(|| MqttError::MalformedHeader)?,
                    )?;

                    len -= size_of::<u8>();

                    tuples.push((topic, qos));
                }
'''
MUTS=[
('u16_manual',[(U,'''    let bytes: [u8; size_of::<u16>()] = iter
        .take(size_of::<u16>())
        .copied()
        .collect::<Vec<u8>>()
        .try_into()
        .map_err(format_unpack_u16_error)?;

    Ok(u16::from_be_bytes(bytes))''','''    let high = *iter.next().ok_or_else(|| format_unpack_u16_error(Vec::new()))?;
    let low = *iter.next().ok_or_else(|| format_unpack_u16_error(vec![high]))?;

    Ok(u16::from_be_bytes([high, low]))''')]),
('u16_shift',[(U,'''    let bytes: [u8; size_of::<u16>()] = iter
        .take(size_of::<u16>())
        .copied()
        .collect::<Vec<u8>>()
        .try_into()
        .map_err(format_unpack_u16_error)?;

    Ok(u16::from_be_bytes(bytes))''','''    match (iter.next(), iter.next()) {
        (Some(high), Some(low)) => Ok((u16::from(*high) << 8) | u16::from(*low)),
        (Some(high), None) => Err(format_unpack_u16_error(vec![*high])),
        _ => Err(format_unpack_u16_error(Vec::new())),
    }''')]),
('string_bytes',[(U,'''    let chars: Vec<u8> = iter.take(len).copied().collect();
    if chars.len() != len {
        return Err(MqttError::RequiredByteMissing("Missing string data"));
    }

    let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;

    Ok(result)''','''    let chars = unpack_bytes(iter, len)?;
    String::from_utf8(chars.to_vec()).map_err(MqttError::MalformedString)''')]),
('string_loop',[(U,'''    let chars: Vec<u8> = iter.take(len).copied().collect();
    if chars.len() != len {
        return Err(MqttError::RequiredByteMissing("Missing string data"));
    }
''','''    let mut chars = Vec::with_capacity(len);
    for _ in 0..len {
        match iter.next() {
            Some(byte) => chars.push(*byte),
            None => return Err(MqttError::RequiredByteMissing("Missing string data")),
        }
    }
''')]),
('string_noempty',[(U,'''    if len == 0 {
        return Ok(String::default());
    }

    let chars''','''    let chars''')]),
('declen_shift',[(U,'''    let mut multiplier: usize = 1;
    let mut value = 0;
    let mut bytes = 0;
    loop {
        let byte = iter
            .next()
            .ok_or_else(|| MqttError::RequiredByteMissing("Missing variable length byte"))?;

        bytes += 1;

        value += ((byte & 127) as usize) * multiplier;

        if multiplier > MAX_ENCODED_SIZE {
            return Err(MqttError::MalformedHeader);
        }

        multiplier *= 128;

        if (byte & 128) == 0 {
            break;
        }
    }

    Ok((value, bytes))''','''    let mut value = 0;
    for bytes in 0..MAX_ENCODED_BYTES {
        let byte = iter
            .next()
            .ok_or_else(|| MqttError::RequiredByteMissing("Missing variable length byte"))?;

        value |= ((byte & 127) as usize) << (7 * bytes);

        if byte & 128 == 0 {
            return Ok((value, bytes + 1));
        }
    }

    // the fifth byte of a length never comes
    iter.next()
        .ok_or_else(|| MqttError::RequiredByteMissing("Missing variable length byte"))?;
    Err(MqttError::MalformedHeader)'''),(U,'const MAX_ENCODED_SIZE: usize = 128 * 128 * 128;\n','')]),
('declen_match',[(U,'''        let byte = iter
            .next()
            .ok_or_else(|| MqttError::RequiredByteMissing("Missing variable length byte"))?;

        bytes += 1;

        value += ((byte & 127) as usize) * multiplier;

        if multiplier > MAX_ENCODED_SIZE {
            return Err(MqttError::MalformedHeader);
        }

        multiplier *= 128;

        if (byte & 128) == 0 {
            break;
        }
    }

    Ok((value, bytes))''','''        let Some(&byte) = iter.next() else {
            return Err(MqttError::RequiredByteMissing("Missing variable length byte"));
        };
        if multiplier > MAX_ENCODED_SIZE {
            return Err(MqttError::MalformedHeader);
        }
        bytes += 1;
        value += usize::from(byte & 0x7f) * multiplier;
        if byte < 128 {
            return Ok((value, bytes));
        }
        multiplier *= 128;
    }''')]),
('enclen',[(U,'''    let mut mlen = len;
    let end = bytes.len() + MAX_ENCODED_BYTES;
    loop {
        if bytes.len() + 1 > end {
            return;
        }

        let mut d = mlen % 128;
        mlen /= 128;

        if mlen > 0 {
            d |= 128;
        }

        bytes.put_u8(d as u8);

        if mlen == 0 {
            break;
        }
    }''','''    let mut rest = len;
    for _ in 0..MAX_ENCODED_BYTES {
        let digit = (rest & 0x7f) as u8;
        rest >>= 7;
        if rest == 0 {
            bytes.put_u8(digit);
            return;
        }
        bytes.put_u8(digit | 0x80);
    }''')]),
('flags_bits',[(F,'''        let data = (self.flags & 0xF0) >> 4;
        PacketType::try_from(data)''','''        PacketType::try_from(self.flags >> 4)'''),(F,'(self.flags & 0x08) >> 3 == 1','self.flags & 0b1000 != 0'),(F,'''        let data = (self.flags & 0x06) >> 1; // get bytes 2-1
        QosLevel::try_from(data)''','''        QosLevel::try_from((self.flags >> 1) & 0b11)'''),(F,'self.flags & 0x01 == 1','self.flags % 2 == 1')]),
('connect_flags',[(K,'self.0 & 0x1 == 1','self.bit(0)'),(K,'(self.0 & 0x2) >> 1 == 1','self.bit(1)'),(K,'(self.0 & 0x04) >> 2 == 1','self.bit(2)'),(K,'(self.0 & 0x40) >> 6 == 1','self.bit(6)'),(K,'(self.0 & 0x80) >> 7 == 1','self.bit(7)'),(K,'''    pub fn validate_flags''','''    fn bit(&self, at: u32) -> bool {
        self.0 & (1 << at) != 0
    }

    pub fn validate_flags''')]),
('ptype_match',[(E,'            1..=14 => unsafe { Ok(std::mem::transmute(value)) },','''            1 => Ok(PacketType::Connect),
            2 => Ok(PacketType::Connack),
            3 => Ok(PacketType::Publish),
            4 => Ok(PacketType::Puback),
            5 => Ok(PacketType::Pubrec),
            6 => Ok(PacketType::Pubrel),
            7 => Ok(PacketType::Pubcomp),
            8 => Ok(PacketType::Subscribe),
            9 => Ok(PacketType::Suback),
            10 => Ok(PacketType::Unsubscribe),
            11 => Ok(PacketType::Unsuback),
            12 => Ok(PacketType::PingReq),
            13 => Ok(PacketType::PingResp),
            14 => Ok(PacketType::Disconnect),''')]),
('qos_if',[(E,'''        match value {
            0 => Ok(QosLevel::AtMost),
            1 => Ok(QosLevel::AtLeast),
            2 => Ok(QosLevel::Exactly),
            _ => Err(MqttError::Convertion(value.to_string(), "QosLevel".into())),
        }''','''        const LEVELS: [QosLevel; 3] = [QosLevel::AtMost, QosLevel::AtLeast, QosLevel::Exactly];
        LEVELS
            .get(usize::from(value))
            .copied()
            .ok_or_else(|| MqttError::Convertion(value.to_string(), "QosLevel".into()))''')]),
('sub_reserved_fn',[(P,'''                if fixed.get_dup() || fixed.get_qos()? != QosLevel::AtLeast || fixed.get_retain() {
                    return Err(MqttError::MalformedHeader);
                }
                let mut len = fixed.get_remaing_len();

                // #''','''                check_reserved(fixed)?;
                let mut len = fixed.get_remaing_len();

                // #'''),(P,'''                if fixed.get_dup() || fixed.get_qos()? != QosLevel::AtLeast || fixed.get_retain() {
                    return Err(MqttError::MalformedHeader);
                }
                let mut len = fixed.get_remaing_len();
                let mut tuples''','''                check_reserved(fixed)?;
                let mut len = fixed.get_remaing_len();
                let mut tuples'''),(P,'''#[derive(Debug)]
pub struct Packet {''','''/// Bits 3 to 0 of the fixed header of SUBSCRIBE, UNSUBSCRIBE and PUBREL are 0010
fn check_reserved(fixed: &FixedHeader) -> Result<(), MqttError> {
    let qos = fixed.get_qos()?;
    if qos == QosLevel::AtLeast && !fixed.get_dup() && !fixed.get_retain() {
        Ok(())
    } else {
        Err(MqttError::MalformedHeader)
    }
}

#[derive(Debug)]
pub struct Packet {''')]),
('sub_loop',[(P,SUBL,'''                let mut tuples = Vec::new();
                while len != 0 {
                    let topic = unpack_string(iter)?;
                    let code = iter.next().copied().ok_or(MqttError::MalformedHeader)?;
                    let qos: QosLevel = code.try_into()?;

                    len -= size_of::<u16>() + topic.len() + size_of::<u8>();
                    tuples.push((topic, qos));
                }
''')]),
('sub_helper',[(P,SUBL,'''                let mut tuples = Vec::new();
                while len > 0 {
                    let (topic, qos) = unpack_request(iter)?;
                    len -= topic.len() + 3;
                    tuples.push((topic, qos));
                }
'''),(P,'''#[derive(Debug)]
pub struct Packet {''','''fn unpack_request<'a, I>(iter: &mut I) -> Result<(String, QosLevel), MqttError>
where
    I: Iterator<Item = &'a u8>,
{
    let topic = unpack_string(iter)?;
    let byte = iter.next().ok_or(MqttError::MalformedHeader)?;
    Ok((topic, QosLevel::try_from(*byte)?))
}

#[derive(Debug)]
pub struct Packet {''')]),
('pub_order',[(P,'''                let mut len = fixed.get_remaing_len();

                let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
                    let id = Some(unpack_u16(iter)?);
                    len -= size_of::<u16>();
                    id
                } else {
                    None
                };

                len -= size_of::<u16>() + topic.len();

                let payload''','''                let packet_id = match fixed.get_qos()? {
                    QosLevel::AtMost => None,
                    _ => Some(unpack_u16(iter)?),
                };
                let header = size_of::<u16>() + topic.len() + packet_id.map_or(0, |_| size_of::<u16>());
                let len = fixed.get_remaing_len() - header;

                let payload''')]),
('pub_rest',[(P,'''                let mut len = fixed.get_remaing_len();

                let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
                    let id = Some(unpack_u16(iter)?);
                    len -= size_of::<u16>();
                    id
                } else {
                    None
                };

                len -= size_of::<u16>() + topic.len();

                let payload = unpack_bytes(iter, len)?;
''','''                let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
                    Some(unpack_u16(iter)?)
                } else {
                    None
                };

                let payload: Bytes = iter.copied().collect();
''')]),
('topic_chars',[(P,"if topic.contains(['+', '#']) {","if topic.chars().any(|c| c == '+' || c == '#') {")]),
('topic_two',[(P,"if topic.contains(['+', '#']) {","if topic.contains('+') || topic.contains('#') {")]),
('cid',[(P,'''                    if id.is_empty() {
                        if !flags.clean_session() {
                            return Err(MqttError::ClientIdentifierRejected);
                        }
                        uuid::Uuid::new_v4().to_string()
                    } else {
                        id
                    }''','''                    match (id.is_empty(), flags.clean_session()) {
                        (true, false) => return Err(MqttError::ClientIdentifierRejected),
                        (true, true) => uuid::Uuid::new_v4().to_string(),
                        (false, _) => id,
                    }''')]),
('acks_fn',[(P,'''    pub fn make_pubcomp(packet_id: u16) -> Bytes {
        Self {
            fixed: FixedHeader::new(PacketType::Pubcomp, false, QosLevel::AtMost, false, 0),
            variable: VariableHeader::PubComp {
                packet_id,
                reason_code: PubReasonCode::Success,
                reason_string: None,
                user_property: None,
            },
        }
        .pack()
    }''','''    fn plain(kind: PacketType, variable: VariableHeader) -> Bytes {
        Packet::new(FixedHeader::new(kind, false, QosLevel::AtMost, false, 0), variable).pack()
    }
    pub fn make_pubcomp(packet_id: u16) -> Bytes {
        Self::plain(
            PacketType::Pubcomp,
            VariableHeader::PubComp {
                packet_id,
                reason_code: PubReasonCode::Success,
                reason_string: None,
                user_property: None,
            },
        )
    }''')]),
('pack_cap',[(P,'''        let mut buffer = BytesMut::new();

        self.fixed.as_byte(&mut buffer);

        let variable = self.variable.pack();

        encode_length(variable.len(), &mut buffer);

        buffer.put(variable);
''','''        let Self { fixed, variable } = self;
        let body = variable.pack();
        let mut buffer = BytesMut::with_capacity(body.len() + 5);

        fixed.as_byte(&mut buffer);
        encode_length(body.len(), &mut buffer);
        buffer.extend_from_slice(&body);
''')]),
('frame_match',[(P,'''        match FixedHeader::from_bytes(&mut bytes.iter(), None) {
            Ok(fixed) => Ok(Some(fixed.get_remaing_len() + fixed.get_rl_len() + 1)),
            Err(MqttError::RequiredByteMissing(_)) => Ok(None),
            Err(err) => Err(err),
        }''','''        let mut iter = bytes.iter();
        let fixed = match FixedHeader::from_bytes(&mut iter, None) {
            Err(MqttError::RequiredByteMissing(_)) => return Ok(None),
            other => other?,
        };
        Ok(Some(bytes.len() - iter.len() + fixed.get_remaing_len()))''')]),
('unpack_split',[(P,'''        let body = bytes
            .get(len - fixed.get_remaing_len()..len)
            .ok_or_else(|| MqttError::RequiredByteMissing("Missing packet body"))?;

        let variable = VariableHeader::unpack(&mut body.iter(), &fixed, protocal)?;''','''        if bytes.len() < len {
            return Err(MqttError::RequiredByteMissing("Missing packet body"));
        }
        let start = 1 + fixed.get_rl_len();
        let mut body = bytes[start..len].iter();
        let variable = VariableHeader::unpack(&mut body, &fixed, protocal)?;''')]),
('unpack_take',[(P,'''        let body = bytes
            .get(len - fixed.get_remaing_len()..len)
            .ok_or_else(|| MqttError::RequiredByteMissing("Missing packet body"))?;

        let variable = VariableHeader::unpack(&mut body.iter(), &fixed, protocal)?;''','''        if bytes.len() < len {
            return Err(MqttError::RequiredByteMissing("Missing packet body"));
        }
        let mut body = iter.take(fixed.get_remaing_len());
        let variable = VariableHeader::unpack(&mut body, &fixed, protocal)?;''')]),
('pack_extend',[(P,'''                for code in return_codes {
                    bytes.put_u8(code.into());
                }''','''                bytes.extend(return_codes.into_iter().map(u8::from));''')]),
('put_str',[(P,'''                bytes.put_u16(topic.len() as u16);
                bytes.put(topic.as_bytes());

                if let Some(id) = packet_id {''','''                put_string(&mut bytes, &topic);

                if let Some(id) = packet_id {'''),(P,'''impl VariableHeader {
    fn pack''','''fn put_string(bytes: &mut BytesMut, text: &str) {
    bytes.put_u16(text.len() as u16);
    bytes.put_slice(text.as_bytes());
}

impl VariableHeader {
    fn pack''')]),
]
