"""more refactorings: voting right"""
from mutlist import same
TY = "src/types.rs"
P = "src/state/process.rs"
B = "        self.authority_list\n            .iter()\n            .any(|node| node.address == address)"
same("y_power_contains", (TY, B, "        self.authority_list\n            .iter()\n            .map(|node| &node.address)\n            .collect::<Vec<_>>()\n            .contains(&address)"))
same("y_power_loop", (TY, B, "        for node in &self.authority_list {\n            if node.address == address {\n                return true;\n            }\n        }\n        false"))
same("y_power_find", (TY, B, "        self.authority_list\n            .iter()\n            .find(|node| *address == node.address)\n            .is_some()"))
same("y_power_filter", (TY, B, "        self.authority_list\n            .iter()\n            .filter(|node| node.address == address)\n            .count()\n            > 0"))
same("y_power_all", (TY, B, "        !self\n            .authority_list\n            .iter()\n            .all(|node| node.address != address)"))
same("y_power_position", (TY, B, "        self.authority_list\n            .iter()\n            .position(|node| node.address == address)\n            .is_some()"))
same("y_power_auth", (P, "        self.consensus_power = status.is_consensus_node(&self.address);\n", "        self.consensus_power = status\n            .authority_list\n            .iter()\n            .any(|node| node.address == self.address);\n"))
MOD = "src/smr/mod.rs"
same("y_ev_match", (MOD, "        self.rx.poll_next_unpin(cx)", "        match Pin::new(&mut self.rx).poll_next(cx) {\n            Poll::Ready(Some(event)) => Poll::Ready(Some(event)),\n            Poll::Ready(None) => Poll::Ready(None),\n            Poll::Pending => Poll::Pending,\n        }"))
same("y_ev_pin", (MOD, "        self.rx.poll_next_unpin(cx)", "        let this = self.get_mut();\n        Pin::new(&mut this.rx).poll_next(cx)"), (MOD, "fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        let", "fn poll_next(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {\n        let"))
same("y_ev_map", (MOD, "        self.rx.poll_next_unpin(cx)", "        let poll = self.rx.poll_next_unpin(cx);\n        if let Poll::Ready(Some(ref event)) = poll {\n            log::trace!(\"Overlord: event {:?}\", event);\n        }\n        poll"))
