"""more refactorings: the election"""
from mutlist import same
A = "src/utils/auth_manage.rs"
R = "src/utils/rand_proposer.rs"
same("x_match", (A, "    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;\n", "    let primes = get_primes_less_than_x(len);\n    let prime_num = match primes.last() {\n        Some(p) => u64::from(*p),\n        None => 1u64,\n    };\n"))
same("x_nested", (A, "    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);\n    res as usize\n", "    let len = u64::from(len);\n    let base = height.wrapping_mul(prime_num);\n    (round.wrapping_add(base) % len) as usize\n"))
same("x_index", (A, "        if let Some(addr) = self.address.get(index) {\n            return Ok(addr.to_owned());\n        }\n        Err(ConsensusError::Other(\n            \"The address list mismatch propose weight list\".to_string(),\n        ))\n", "        if index >= self.address.len() {\n            return Err(ConsensusError::Other(\n                \"The address list mismatch propose weight list\".to_string(),\n            ));\n        }\n        Ok(self.address[index].clone())\n"))
same("x_loop", (R, "    let mut random_digit = rng.next_u64();\n    while random_digit >= weight_sum * tmp {\n        random_digit = rng.next_u64();\n    }\n", "    let bound = tmp * weight_sum;\n    let random_digit = loop {\n        let digit = rng.next_u64();\n        if digit < bound {\n            break digit;\n        }\n    };\n"))
same("x_while", (R, "    for (index, weight) in weights.iter().enumerate() {\n        acc += *weight;\n        if random_digit < acc * tmp {\n            return index;\n        }\n    }\n    0\n", "    let mut index = 0;\n    while index < weights.len() {\n        acc += weights[index];\n        if random_digit < acc * tmp {\n            return index;\n        }\n        index += 1;\n    }\n    0\n"))
same("x_position", (R, "    for (index, weight) in weights.iter().enumerate() {\n        acc += *weight;\n        if random_digit < acc * tmp {\n            return index;\n        }\n    }\n    0\n", "    weights\n        .iter()\n        .position(|weight| {\n            acc += *weight;\n            random_digit < acc * tmp\n        })\n        .unwrap_or(0)\n"))
same("x_helper", (R, "        if random_digit < acc * tmp {\n", "        let edge = tmp * acc;\n        let inside = edge > random_digit;\n        if inside {\n"))
