T='src/topic_heir.rs'; U='src/utils.rs'
MUTS=[
('collect_match',[(T,'''    if let Some(known) = subscribers.iter_mut().find(|e| e.0 == sub.identifier) {
        known.2 = known.2.max(sub.qos);
    } else {
        subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos));
    }''','''    for known in subscribers.iter_mut() {
        if known.0 == sub.identifier {
            if sub.qos > known.2 {
                known.2 = sub.qos;
            }
            return;
        }
    }
    subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos));''')]),
('collect_pos',[(T,'''    if let Some(known) = subscribers.iter_mut().find(|e| e.0 == sub.identifier) {
        known.2 = known.2.max(sub.qos);
    } else {
        subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos));
    }''','''    match subscribers.iter().position(|e| e.0 == sub.identifier) {
        Some(at) => subscribers[at].2 = subscribers[at].2.max(sub.qos),
        None => subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos)),
    }''')]),
('ins_entry',[(T,'''            if !self.children.contains_key(&topic) {
                self.children.insert(topic.clone(), Self::new());
            }

            if let Some(mut child) = self.children.get_mut(&topic) {
                child.insert(iter, sub, share);
            }''','''            self.children
                .entry(topic)
                .or_insert_with(Self::new)
                .insert(iter, sub, share);''')]),
('ins_retain',[(T,'''            if let Some(idx) = self
                .subs
                .iter()
                .position(|e| e.identifier == sub.identifier)
            {
                self.subs.remove(idx);
            }
            self.subs.push(sub);''','''            self.subs.retain(|e| e.identifier != sub.identifier);
            self.subs.push(sub);''')]),
('ins_replace',[(T,'''            if let Some(idx) = self
                .subs
                .iter()
                .position(|e| e.identifier == sub.identifier)
            {
                self.subs.remove(idx);
            }
            self.subs.push(sub);''','''            match self.subs.iter_mut().find(|e| e.identifier == sub.identifier) {
                Some(old) => *old = sub,
                None => self.subs.push(sub),
            }''')]),
('ins_helper',[(T,'''            if let Some(idx) = self
                .subs
                .iter()
                .position(|e| e.identifier == sub.identifier)
            {
                self.subs.remove(idx);
            }
            self.subs.push(sub);''','''            put_leaf(&mut self.subs, sub);'''),(T,'''                if let Some(idx) = s.iter().position(|e| e.identifier == sub.identifier) {
                    s.remove(idx);
                }
                s.push(sub);''','''                put_leaf(&mut s, sub);'''),(T,'''#[derive(Debug)]
struct SubHier''','''fn put_leaf(leaves: &mut Vec<SubscriptionLeaf>, sub: SubscriptionLeaf) {
    if let Some(idx) = leaves.iter().position(|e| e.identifier == sub.identifier) {
        leaves.remove(idx);
    }
    leaves.push(sub);
}

#[derive(Debug)]
struct SubHier''')]),
('del_retain',[(T,'''        } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
            self.subs.remove(idx);
        }
''','''        } else {
            self.subs.retain(|e| e.identifier != identifer);
        }
''')]),
('del_swap',[(T,'''        } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
            self.subs.remove(idx);
        }
''','''        } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
            self.subs.swap_remove(idx);
        }
''')]),
('del_scope',[(T,'''            if let Some(mut child) = self.children.get_mut(&topic) {
                let can_remove = child.delete(iter, identifer, share);
                // map can deadlock if holding any sort of reference into the map
                // so drop child to prevent deadlock
                drop(child);
                if can_remove {
                    self.children.remove(&topic);
                }
            }''','''            let can_remove = match self.children.get_mut(&topic) {
                Some(mut child) => child.delete(iter, identifer, share),
                None => false,
            };
            if can_remove {
                self.children.remove(&topic);
            }''')]),
('del_removeif',[(T,'''                drop(child);
                if can_drop {
                    self.0.remove(&topic);
                }''','''                drop(child);
                if can_drop {
                    let _ = self.0.remove(&topic);
                }''')]),
('del_empty_fn',[(T,'''        self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()''','''        self.is_unused()'''),(T,'''    pub fn get(
        &self,
        iter''','''    fn is_unused(&self) -> bool {
        if !self.subs.is_empty() {
            return false;
        }
        self.children.len() == 0 && self.shared.len() == 0
    }

    pub fn get(
        &self,
        iter''')]),
('get_fn',[(T,'''        if let Some(child) = self.children.get("#") {
            if let Some(share) = share {
                if let Some(s) = child.shared.get(share) {
                    for x in s.iter() {
                        collect_subscriber(subscribers, x);
                    }
                }
            } else {
                for x in &child.subs {
                    collect_subscriber(subscribers, x);
                }
            }
        }''','''        if let Some(child) = self.children.get("#") {
            child.leaves(subscribers, share);
        }'''),(T,'''        } else if let Some(share) = share {
            if let Some(s) = self.shared.get(share) {
                for x in s.iter() {
                    collect_subscriber(subscribers, x);
                }
            }
        } else {
            for x in &self.subs {
                collect_subscriber(subscribers, x);
            }
        }
''','''        } else {
            self.leaves(subscribers, share);
        }
'''),(T,'''    pub fn get(
        &self,
        iter''','''    fn leaves(
        &self,
        subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
        share: &Option<String>,
    ) {
        match share {
            Some(name) => {
                if let Some(s) = self.shared.get(name) {
                    s.iter().for_each(|x| collect_subscriber(subscribers, x));
                }
            }
            None => self.subs.iter().for_each(|x| collect_subscriber(subscribers, x)),
        }
    }

    pub fn get(
        &self,
        iter''')]),
('get_loop',[(T,'''            if let Some(child) = self.children.get(&topic) {
                child.get(&mut iter.clone(), subscribers, share);
            }

            if let Some(child) = self.children.get("+") {
                child.get(&mut iter.clone(), subscribers, share);
            }''','''            for key in ["+", topic.as_str()] {
                if let Some(child) = self.children.get(key) {
                    child.get(&mut iter.clone(), subscribers, share);
                }
            }''')]),
('get_order',[(T,'''            if let Some(child) = self.children.get(&topic) {
                child.get(&mut iter.clone(), subscribers, share);
            }

            if let Some(child) = self.children.get("+") {
                child.get(&mut iter.clone(), subscribers, share);
            }''','''            let rest = iter.clone();
            if let Some(child) = self.children.get("+") {
                child.get(&mut rest.clone(), subscribers, share);
            }
            if let Some(child) = self.children.get(topic.as_str()) {
                child.get(iter, subscribers, share);
            }''')]),
('filter_for',[(U,'''    levels.iter().enumerate().all(|(i, level)| match level.as_str() {
        "+" => true,
        "#" => i + 1 == levels.len(),
        level => !level.contains(['+', '#']),
    })''','''    for (i, level) in levels.iter().enumerate() {
        let valid = if level == "+" {
            true
        } else if level == "#" {
            i == levels.len() - 1
        } else {
            !level.contains('+') && !level.contains('#')
        };
        if !valid {
            return false;
        }
    }
    true''')]),
('filter_last',[(U,'''    levels.iter().enumerate().all(|(i, level)| match level.as_str() {
        "+" => true,
        "#" => i + 1 == levels.len(),
        level => !level.contains(['+', '#']),
    })''','''    let Some((last, init)) = levels.split_last() else {
        return true;
    };
    let plain = |level: &String| level == "+" || !level.contains(['+', '#']);
    init.iter().all(plain) && (last == "#" || plain(last))''')]),
('token_iter',[(U,'''    Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))''','''    let levels = topic.into_iter().map(String::from).collect();
    Ok((levels, sharename))''')]),
('token_match',[(U,'''    let sharename = if let Some(&"$share") = topic.first() {
        if topic.len() < 2 {
            return Err(1);
        }
        topic.remove(0);
        let share = topic.first().ok_or(1)?.to_string();
        if let Some(first) = topic.first_mut() {
            *first = "";
        }

        Some(share)
    } else {
        None
    };
''','''    let mut sharename = None;
    if topic[0] == "$share" {
        if topic.len() == 1 {
            return Err(1);
        }
        topic.remove(0);
        sharename = Some(topic[0].to_string());
        topic[0] = "";
    }
''')]),
]
