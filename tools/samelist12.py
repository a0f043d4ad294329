"""refactorings and bugs of the serde forms"""
from mutlist import bug, same
from samelist10 import rx
T = "src/types.rs"
SH = "src/serde_hex.rs"
SM = "src/serde_multi_hex.rs"
L = "src/lib.rs"
W = "src/wal/wal_type.rs"
bug("v_hex_trim", "C49", (SH, "hex_decode(v).map_err", "hex_decode(v.trim_start_matches('0')).map_err"))
bug("v_hex_upper", "C49", (SH, "s.serialize_str(&hex_encode(val))", "s.serialize_str(hex_encode(val).trim_end_matches('0'))"))
bug("v_hex_slice", "C49", (SH, "Ok(Bytes::from(value))", "Ok(Bytes::from(value).slice(..value_len(v)))"), (SH, "struct StringVisit;", "fn value_len(v: &str) -> usize {\n    (v.len() / 2).min(96)\n}\n\nstruct StringVisit;"))
bug("v_hex_empty", "C49", (SH, "        let value = hex_decode(v)", "        if v.is_empty() {\n            return Err(de::Error::custom(\"empty\"));\n        }\n        let value = hex_decode(v)"))
bug("v_multi_rev", "C49", (SM, "        vec_t.inner.into_iter().map", "        vec_t.inner.into_iter().rev().map"))
bug("v_multi_filter", "C49", (SM, "        vec_t.inner.into_iter().map", "        vec_t.inner.into_iter().filter(|t| t.inner.len() == 20).map"))
bug("v_multi_skip", "C49", (SM, "        .iter()\n        .map(|t|", "        .iter()\n        .skip(1)\n        .map(|t|"))
bug("v_multi_name", "C49", (SM, 'state.serialize_field("inner"', 'state.serialize_field("Inner"'))
bug("v_multi_lower", "C49", (SM, 'rename_all = "lowercase"', 'rename_all = "PascalCase"'))
bug("v_multi_len", "C49", (SM, "            Ok(VecT::new(inner))\n        }\n\n        fn visit_map", "            let inner: Vec<TWrapper> = inner;\n            if inner.len() > 64 {\n                return Err(de::Error::invalid_length(inner.len(), &self));\n            }\n            Ok(VecT::new(inner))\n        }\n\n        fn visit_map"))
bug("v_node_skip", "C49", (T, "    pub propose_weight: u32,\n    /// The vote", "    #[serde(skip)]\n    pub propose_weight: u32,\n    /// The vote"))
bug("v_node_skipif", "C49", (T, "    pub propose_weight: u32,\n    /// The vote", "    #[serde(default, skip_serializing_if = \"is_zero\")]\n    pub propose_weight: u32,\n    /// The vote"), (T, "impl PartialOrd for Node {", "fn is_zero(w: &u32) -> bool {\n    *w == 0\n}\n\nimpl PartialOrd for Node {"))
bug("v_av_rename", "C49", (T, "    #[serde(with = \"super::serde_hex\")]\n    pub leader: Address,", "    #[serde(with = \"super::serde_hex\", rename(serialize = \"leader_address\"))]\n    pub leader: Address,"))
bug("v_wal_skipif", "C49", (W, "    pub lock:   Option<WalLock<T>>,", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub lock: Option<WalLock<T>>,"))
bug("v_dc_camel", "C49", (L, "#[derive(Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq)]\n", "#[derive(Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq)]\n#[serde(rename_all(deserialize = \"camelCase\"))]\n"))
bug("v_dc_skipde", "C49", (L, "    pub brake_ratio: u64,", "    #[serde(skip_deserializing)]\n    pub brake_ratio: u64,"))
bug("v_uf_rename", "C49", (T, "    PrecommitQC(AggregatedVote),", "    #[serde(rename(serialize = \"precommit_qc\"))]\n    PrecommitQC(AggregatedVote),"))
same("v_vt_skip", (T, "    #[display(fmt = \"Precommit\")]\n    Precommit,", "    #[display(fmt = \"Precommit\")]\n    #[serde(alias = \"Prevote\")]\n    Precommit,"))
bug("v_sig_desonly", "C49", (T, "    #[serde(with = \"super::serde_hex\")]\n    pub address_bitmap: Bytes,", "    #[serde(serialize_with = \"super::serde_hex::serialize\")]\n    pub address_bitmap: Bytes,"))
same("v_hex_match", (SH, "        let value = hex_decode(v).map_err(de::Error::custom)?;\n        Ok(Bytes::from(value))", "        match hex_decode(v) {\n            Ok(value) => Ok(value.into()),\n            Err(err) => Err(de::Error::custom(err)),\n        }"))
same("v_hex_map", (SH, "        let value = hex_decode(v).map_err(de::Error::custom)?;\n        Ok(Bytes::from(value))", "        hex_decode(v).map(Bytes::from).map_err(E::custom)"))
same("v_hex_let", (SH, "    s.serialize_str(&hex_encode(val))", "    let text = hex_encode(val);\n    s.serialize_str(text.as_str())"))
same("v_hex_string", (SH, "#[inline]\n", ""), (SH, "hex_encode(val)", "encode_hex(val)"), (SH, "struct StringVisit;", "fn encode_hex(val: &Bytes) -> String {\n    hex_encode(val)\n}\n\nstruct StringVisit;"))
same("v_hex_pair", (T, "    #[serde(with = \"super::serde_hex\")]\n    pub address_bitmap: Bytes,", "    #[serde(\n        serialize_with = \"super::serde_hex::serialize\",\n        deserialize_with = \"super::serde_hex::deserialize\"\n    )]\n    pub address_bitmap: Bytes,"))
same("v_multi_for", (SM, "    let inner = val\n        .iter()\n        .map(|t| TWrapper {\n            inner: t.to_owned(),\n        })\n        .collect::<Vec<TWrapper>>();", "    let mut inner = Vec::with_capacity(val.len());\n    for t in val {\n        inner.push(TWrapper { inner: t.clone() });\n    }"))
same("v_multi_collect", (SM, "    Ok(Vec::from_iter(\n        vec_t.inner.into_iter().map(|wrap_t| wrap_t.inner),\n    ))", "    Ok(vec_t.inner.into_iter().map(|w| w.inner).collect())"), (SM, "use std::{fmt, iter::FromIterator};", "use std::fmt;"))
same("v_multi_forde", (SM, "    Ok(Vec::from_iter(\n        vec_t.inner.into_iter().map(|wrap_t| wrap_t.inner),\n    ))", "    let mut res = Vec::new();\n    for TWrapper { inner } in vec_t.inner {\n        res.push(inner);\n    }\n    Ok(res)"), (SM, "use std::{fmt, iter::FromIterator};", "use std::fmt;"))
same("v_multi_direct", (SM, "    let vec_t = VecT { inner };\n\n", ""), (SM, "&vec_t.inner)?", "&inner)?"))
same("v_multi_seqmatch", (SM, "            let inner = seq\n                .next_element()?\n                .ok_or_else(|| de::Error::invalid_length(0, &self))?;\n\n            Ok(VecT::new(inner))", "            match seq.next_element()? {\n                Some(inner) => Ok(VecT { inner }),\n                None => Err(de::Error::invalid_length(0, &self)),\n            }"))
same("v_multi_maploop", (SM, "            while let Some(key) = map.next_key()? {\n                match key {\n                    Field::Inner => {\n                        if inner.is_some() {\n                            return Err(de::Error::duplicate_field(\"inner\"));\n                        }\n                        inner = Some(map.next_value()?);\n                    }\n                }\n            }", "            while let Some(Field::Inner) = map.next_key()? {\n                if inner.is_some() {\n                    return Err(de::Error::duplicate_field(\"inner\"));\n                }\n                inner = Some(map.next_value()?);\n            }"))
same("v_node_default", (T, "    pub propose_weight: u32,\n    /// The vote", "    #[serde(default)]\n    pub propose_weight: u32,\n    /// The vote"))
same("v_node_alias", (T, "    pub propose_weight: u32,\n    /// The vote", "    #[serde(alias = \"proposeWeight\")]\n    pub propose_weight: u32,\n    /// The vote"))
same("v_dc_deny", (L, "#[derive(Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq)]\n", "#[derive(Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq)]\n#[serde(deny_unknown_fields)]\n"))
