# behaviour-preserving edits: every check has to stay quiet on them

TR, SH, SW, PT, CD, UT, LD, AF, AM, LB = ['src/' + x for x in ('triangles.rs', 'shape.rs', 'sweeper.rs', 'points.rs', 'cdt.rs', 'utils.rs', 'loader.rs', 'advancing_front/vec_backed.rs', 'advancing_front/mod.rs', 'lib.rs')]
M = [
 ('r-concave-helper', None, [(SW, "        if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {\n            // concave\n            self.fill_right_concave", "        if Self::corner_is_concave(&node, &next_node, &next_next_node) {\n            // concave\n            self.fill_right_concave"),
   (SW, "    /// recursively fill concave nodes\n", "    fn corner_is_concave(a: &NodeRef, b: &NodeRef, c: &NodeRef) -> bool {\n        let o = orient_2d(a.point(), b.point(), c.point());\n        o == Orientation::CCW\n    }\n\n    /// recursively fill concave nodes\n")]),
 ('r-concave-loop', None, [(SW, """        let next_id = {
            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
            let next_id = next_node.get_node_id();
            match self.fill_one(next_id, observer) {
                None => {
                    // nothing changed
                    next_id
                }
                Some(fill_one) => fill_one.next,
            }
        };

        if next_id.point_id() != edge.p_id() {
            // next above or below edge?
            if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
                let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();

                //  below
                if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
                    // next is concave
                    self.fill_right_concave_edge_event(edge, node_id, observer);
                } else {
                    // next is convex
                }
            }
        }
""", """        loop {
            let first = self.advancing_front.locate_next_node(node_id).unwrap().get_node_id();
            let next_id = self.fill_one(first, observer).map(|f| f.next).unwrap_or(first);
            if next_id.point_id() == edge.p_id() {
                break;
            }
            if !orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
                break;
            }
            let far = self.advancing_front.locate_next_node(next_id).unwrap();
            if !orient_2d(node_id.point(), next_id.point(), far.point()).is_ccw() {
                break;
            }
        }
""")]),
 ('r-above-loop', None, [(SW, """        while let Some(prev_node) = self.advancing_front.locate_prev_node(node_id) {
            // check if next node is below the edge
            if prev_node.point().x <= edge.p.x {
                break;
            }
""", """        loop {
            let prev_node = match self.advancing_front.locate_prev_node(node_id) {
                Some(n) => n,
                None => return,
            };
            let reached = !(prev_node.point().x > edge.p.x);
            if reached {
                return;
            }
""")]),
 ('r-left-below-order', None, [(SW, """        if node_id.point().x > edge.p.x {
            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
            let prev_prev_node = prev_node.prev().unwrap();
            if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
                self.fill_left_concave_edge_event(edge, node_id, observer);
            } else {
                // convex
                self.fill_left_convex_edge_event(edge, node_id, observer)?;

                // retry this one
                self.fill_left_below_edge_event(edge, node_id, observer);
            }
            Some(())
        } else {
            None
        }
""", """        if node_id.point().x <= edge.p.x {
            return None;
        }
        let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
        let prev_prev_node = prev_node.prev().unwrap();
        let turn = orient_2d(prev_prev_node.point(), prev_node.point(), node_id.point());
        match turn {
            Orientation::CCW => self.fill_left_concave_edge_event(edge, node_id, observer),
            _ => {
                self.fill_left_convex_edge_event(edge, node_id, observer)?;
                self.fill_left_below_edge_event(edge, node_id, observer);
            }
        }
        Some(())
""")]),
 ('r-fillone-order', None, [(SW, """        let fill_one_result = FillOne {
            prev: prev_node.get_node_id(),
            next: next_node.get_node_id(),
        };

        let new_triangle""", """        let (prev_id, next_id) = (prev_node.get_node_id(), next_node.get_node_id());

        let new_triangle"""), (SW, "        Some(fill_one_result)\n", "        Some(FillOne { prev: prev_id, next: next_id })\n"),
   (SW, """        self.triangles
            .mark_neighbor(new_triangle, prev_node.triangle.unwrap());
        self.triangles
            .mark_neighbor(new_triangle, node.triangle.unwrap());
""", """        let (below_left, below_right) = (prev_node.triangle.unwrap(), node.triangle.unwrap());
        self.triangles.mark_neighbor(below_right, new_triangle);
        self.triangles.mark_neighbor(new_triangle, below_left);
""")]),
 ('r-point-event', None, [(SW, """        let triangle = self.triangles.insert(InnerTriangle::new(
            point_id,
            node.point_id(),
            next_node.point_id(),
        ));
        let node_triangle = node.triangle.unwrap();
        self.triangles.mark_neighbor(node_triangle, triangle);
        self.advancing_front.insert(point_id, point, triangle);

        self.legalize(triangle, observer);
""", """        let node_triangle = node.triangle.unwrap();
        let corners = InnerTriangle::new(node.point_id(), next_node.point_id(), point_id);
        let triangle = self.attach(corners, node_triangle);
        self.advancing_front.insert(point_id, point, triangle);

        self.legalize(triangle, observer);
"""), (SW, "    /// helper function to check wether triangle is legal\n", """    fn attach(&mut self, corners: InnerTriangle, below: TriangleId) -> TriangleId {
        let id = self.triangles.insert(corners);
        self.triangles.mark_neighbor(id, below);
        id
    }

    /// helper function to check wether triangle is legal
""")]),
 ('r-rename-locals', None, [(SW, "let fill_one = self.fill_one(node, observer).expect(\"already in basin\");\n        let prev = fill_one.prev;\n        let next = fill_one.next;\n", "let FillOne { prev, next } = self.fill_one(node, observer).expect(\"already in basin\");\n")]),
 ('r-scan', None, [(UT, "    if oadc <= Float::EPSILON {\n        return false;\n    }\n\n    true", "    oadc > Float::EPSILON")]),
 ('r-angle', None, [(UT, "        } else if self.dx >= 0. {\n            self.dy < 0.\n        } else {\n            self.dy < 0.\n        }", "        } else {\n            self.dy < 0.\n        }")]),
 ('r-basin', None, [(SW, "        if ax > 0. {\n            ay < TAN_3_4_PI * ax\n        } else {\n            ay > TAN_3_4_PI * ax\n        }", "        let limit = TAN_3_4_PI * ax;\n        (ax > 0. && ay < limit) || (!(ax > 0.) && limit < ay)")]),
 ('r-tieeps', None, [(SW, "point.x <= node_point.x + Float::EPSILON", "point.x <= node_point.x")]),
 ('r-delorder', None, [(AF, """        let entry = self.nodes.get_mut(update_index).unwrap();
        debug_assert!(entry.node.point_id == point_id, "point_id mismatch");
        entry.node.triangle = triangle_id;

        // then delete
        self.nodes.remove(delete_index);
""", """        self.nodes.remove(delete_index);
        let entry = &mut self.nodes[update_index];
        debug_assert!(entry.node.point_id == point_id, "point_id mismatch");
        entry.node.triangle = triangle_id;
""")]),
 ('r-insertif', None, [(AF, """        let node_index = match self.search_by_key(&PointKey(point)) {
            Ok(idx) => {
                self.nodes[idx].node = new_node;
                idx
            }
            Err(idx) => {
                self.nodes.insert(idx, Entry::new(point.into(), new_node));
                idx
            }
        };
        self.access_cache = Some((PointKey(point), node_index));""", """        let key = PointKey(point);
        let found = self.search_by_key(&key);
        let node_index = found.unwrap_or_else(|i| i);
        if found.is_ok() {
            self.nodes[node_index] = Entry { key, node: new_node };
        } else {
            self.nodes.insert(node_index, Entry { key, node: new_node });
        }
        self.access_cache = Some((key, node_index));""")]),
 ('r-newtri', None, [(SW, """        let triangle = self.triangles.insert(InnerTriangle::new(
            point_id,
            node.point_id(),
            next_node.point_id(),
        ));
        let node_triangle = node.triangle.unwrap();
        self.triangles.mark_neighbor(node_triangle, triangle);
        self.advancing_front.insert(point_id, point, triangle);
""", """        let node_triangle = node.triangle.unwrap();
        let corners = (node.point_id(), next_node.point_id());
        let triangle = self.attach_new(point_id, corners, point);
        self.triangles.mark_neighbor(triangle, node_triangle);
"""), (SW, "    /// helper function to check wether triangle is legal", """    fn attach_new(&mut self, point_id: PointId, c: (PointId, PointId), point: Point) -> TriangleId {
        let t = InnerTriangle::new(c.0, c.1, point_id);
        let id = self.triangles.insert(t);
        self.advancing_front.insert(point_id, point, id);
        id
    }

    /// helper function to check wether triangle is legal""")]),

 ('r-leg-helper', None, [(SW, """                    {
                        let (t, ot) = unsafe {
                            self.triangles
                                .get_mut_two(triangle_id, opposite_triangle_id)
                        };

                        let (t_idx, ot_idx) = t.common_edge_index(ot).unwrap();
                        t.set_delaunay(t_idx, true);
                        ot.set_delaunay(ot_idx, true);
                    }
""", """                    self.mark_legal(triangle_id, opposite_triangle_id);
"""), (SW, "    /// update advancing front node's triangle\n", """    fn mark_legal(&mut self, a: TriangleId, b: TriangleId) {
        let (left, right) = unsafe { self.triangles.get_mut_two(a, b) };
        if let Some((i, j)) = left.common_edge_index(right) {
            left.set_delaunay(i, true);
            right.set_delaunay(j, true);
        }
    }

    /// update advancing front node's triangle
""")]),
 ('r-leg-while', None, [(SW, """            for point_idx in 0..3 {
                let triangle = triangle_id.get(&self.triangles);
                // skip legalize for constrained_edge
                if triangle.is_constrained(point_idx) || triangle.is_delaunay(point_idx) {
                    continue;
                }

                let opposite_triangle_id = triangle.neighbors[point_idx];
                if opposite_triangle_id.invalid() {
                    continue;
                };
                let opposite_triangle = opposite_triangle_id.get(&self.triangles);
""", """            let mut edge = 0;
            while edge < 3 {
                let point_idx = edge;
                edge += 1;
                let triangle = triangle_id.get(&self.triangles);
                let opposite_triangle_id = triangle.neighbors[point_idx];
                let Some(opposite_triangle) = self.triangles.get(opposite_triangle_id) else {
                    continue;
                };
                if !(!triangle.is_constrained(point_idx) && !triangle.is_delaunay(point_idx)) {
                    continue;
                }
""")]),
 ('r-leg-local', None, [(SW, "        let mut task_queue = std::mem::take(&mut self.legalize_task_queue);\n        task_queue.push(triangle_id);", "        let mut task_queue = vec![triangle_id];"),
   (SW, "            self.legalize_task_queue = task_queue;\n", "")]),
 ('r-leg-order', None, [(SW, """                    task_queue.push(triangle_id);
                    task_queue.push(opposite_triangle_id);

                    if need_remap {
                        legalized_triangles.push(triangle_id);
                        legalized_triangles.push(opposite_triangle_id);
                    }
                    break;""", """                    if need_remap {
                        legalized_triangles.extend([triangle_id, opposite_triangle_id]);
                    }
                    task_queue.extend_from_slice(&[triangle_id, opposite_triangle_id]);
                    break;""")]),
 ('r-leg-find', None, [(SW, """                if illegal {
                    observer""", """                if !illegal {
                    continue;
                }
                {
                    observer"""), (SW, """                    break;
                } else {
                    // though we can set delaunay edge to prevent future recalulate
                    // it turns out slower, it means the recalculation is not many
                }
""", """                    break;
                }
""")]),
 ('r-leg-pop', None, [(SW, "        while let Some(triangle_id) = task_queue.pop() {\n", "        loop {\n            let triangle_id = match task_queue.pop() {\n                Some(t) => t,\n                None => break,\n            };\n")]),
 ('r-leg-drain', None, [(SW, "        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);\n        }\n", "        for i in 0..legalized_triangles.len() {\n            self.map_triangle_to_nodes(legalized_triangles[i]);\n        }\n        legalized_triangles.clear();\n")]),
 ('r-sweep-index', None, [(SW, "        for (point_id, point, edges) in self.points.iter_point_by_y(1) {\n", "        let mut order = 1;\n        while let Some(point_id) = self.points.get_id_by_y(order) {\n            order += 1;\n            let (_, point, edges) = self.points.iter_point_by_y(order - 1).next().unwrap();\n")]),
 ('r-sweep-edge', None, [(SW, "            for p in edges {\n                let edge = Edge { p, q: point_id };\n                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);\n            }\n", "            self.segments_of(point_id, point, edges, observer);\n"),
   (SW, "    pub(crate) fn finalize_polygon(", "    fn segments_of(&mut self, q: PointId, at: Point, mut edges: crate::points::PointEdges, observer: &mut dyn Observer) {\n        while let Some(p) = edges.next() {\n            let edge = Edge { p, q };\n            self.edge_event(edge, at, observer);\n            observer.edge_event(edge, self);\n        }\n    }\n\n    pub(crate) fn finalize_polygon(")]),
 ('r-map-iter', None, [(SW, """        for i in 0..3 {
            if triangle.neighbors[i].invalid() {
                let point = unsafe {
                    self.points
                        .get_point_uncheck(triangle.point_cw(triangle.points[i]))
                };
                self.advancing_front.update_triangle(point, triangle_id);
            }
        }
""", """        for (neighbor, corner) in triangle.neighbors.iter().zip(triangle.points.iter()) {
            if !neighbor.invalid() {
                continue;
            }
            let start = triangle.point_cw(*corner);
            self.advancing_front.update_triangle(start.get(self.points), triangle_id);
        }
""")]),
 ('r-edges-next', None, [(PT, """        let mut result = None;
        let new_self = match std::mem::replace(self, PointEdges::None) {
            PointEdges::None => PointEdges::None,
            PointEdges::One(p) => {
                result = Some(p);
                PointEdges::None
            }
            PointEdges::Two(p0, p1) => {
                result = Some(p0);
                PointEdges::One(p1)
            }
        };
        *self = new_self;
        result
""", """        match *self {
            PointEdges::None => None,
            PointEdges::One(p) => {
                *self = PointEdges::None;
                Some(p)
            }
            PointEdges::Two(p0, p1) => {
                *self = PointEdges::One(p1);
                Some(p0)
            }
        }
""")]),
 ('r-update', None, [(AF, "        let idx = self.search_by_key_with_cache(&PointKey(point)).unwrap();\n        self.nodes[idx].node.triangle = triangle_id;\n", "        match self.search_by_key_with_cache(&PointKey(point)) {\n            Ok(idx) => {\n                let entry = &mut self.nodes[idx];\n                entry.node.triangle = triangle_id;\n            }\n            Err(_) => panic!(\"no such node\"),\n        }\n")]),
 ('r-flip-map', None, [(SW, """            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {
                self.map_triangle_to_nodes(triangle_id);
                self.map_triangle_to_nodes(ot_id);
            }
""", """            let at_border = self.rotate_triangle_pair(triangle_id, p, ot_id, op);
            if at_border {
                for id in [triangle_id, ot_id] {
                    self.map_triangle_to_nodes(id);
                }
            }
""")]),
 ('r-rotate', None, [(SW, "        n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()", "        [n1, n2, n3, n4].iter().any(|n| n.invalid())")]),
 ('r-run', None, [(CD, "        Sweeper::sweep_points(&mut context, observer);\n        observer.sweep_done(&context);\n\n        Sweeper::finalize_polygon(&mut context);\n        observer.finalized(&context);\n", "        context.sweep_points(observer);\n        observer.sweep_done(&context);\n        let _ = context.finalize_polygon();\n        observer.finalized(&context);\n")]),
 ('r-cachekeep', None, [(AF, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        if let Some((_, i)) = self.access_cache { if i >= delete_index { self.access_cache = None; } }")]),
 ('r-cacheshift', None, [(AF, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        self.access_cache = match self.access_cache {\n            Some((k, i)) if i > delete_index => Some((k, i - 1)),\n            Some((k, i)) if i < delete_index => Some((k, i)),\n            _ => None,\n        };")]),
 ('r-partition', None, [(AF, "        self.nodes.binary_search_by_key(key, |e| e.key)\n    }\n", "        let i = self.nodes.partition_point(|e| e.key < *key);\n        match self.nodes.get(i) {\n            Some(e) if e.key == *key => Ok(i),\n            _ => Err(i),\n        }\n    }\n")]),
 ('r-searchby', None, [(AF, "        self.nodes.binary_search_by_key(key, |e| e.key)\n    }\n", "        self.nodes.binary_search_by(|e| e.key.cmp(key))\n    }\n")]),
 ('r-nextget', None, [(AF, "        let idx = node.index + 1;\n        if idx < self.nodes.len() {\n            Some(self.nodes[idx].to_node(idx, self))\n        } else {\n            None\n        }", "        self.nth(node.index + 1)")]),
 ('r-prevchk', None, [(AF, "        if node.index == 0 {\n            return None;\n        }\n\n        let index = node.index - 1;\n        // satefy: idx checked above\n        Some(unsafe { self.nodes.get_unchecked(index) }.to_node(index, self))", "        let index = node.index.checked_sub(1)?;\n        self.nodes.get(index).map(|e| e.to_node(index, self))")]),
 ('r-cachehelper', None, [(AF, "        self.access_cache = Some((PointKey(point), node_index));\n    }\n", "        self.remember(PointKey(point), node_index);\n    }\n\n    fn remember(&mut self, key: PointKey, at: usize) {\n        self.access_cache = Some((key, at));\n    }\n")]),
 ('r-simplecache', None, [(AF, "                    Ordering::Less if i < self.nodes.len() => {", "                    Ordering::Less if i + 1 < self.nodes.len() => {")]),
 ('r-fill-markpush', None, [(SW, """        let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());
        triangles.push((triangle_id, TriangleId::INVALID));

        while let Some((t, from)) = triangles.pop() {
            if t.invalid() {
                continue;
            }

            let tri = self.triangles.get_mut(t).unwrap();

            if !tri.interior {
                tri.interior = true;
                self.result.push(t);

                for i in 0..3 {
                    if !tri.is_constrained(i) {
                        let new_t = tri.neighbors[i];
                        if new_t != from {
                            triangles.push((new_t, t));
                        }
                    }
                }
            }
        }
""", """        let mut pending = vec![triangle_id];
        self.triangles.get_mut(triangle_id).unwrap().interior = true;

        while let Some(t) = pending.pop() {
            self.result.push(t);
            for i in 0..3 {
                let tri = self.triangles.get(t).unwrap();
                if tri.is_constrained(i) {
                    continue;
                }
                let n = tri.neighbors[i];
                if n.invalid() {
                    continue;
                }
                let other = self.triangles.get_mut(n).unwrap();
                if !other.interior {
                    other.interior = true;
                    pending.push(n);
                }
            }
        }
""")]),
 ('r-fill-nofrom', None, [(SW, """                        if new_t != from {
                            triangles.push((new_t, t));
                        }""", """                        triangles.push((new_t, t));"""), (SW, "while let Some((t, from)) = triangles.pop() {\n            if t.invalid() {", "while let Some((t, _from)) = triangles.pop() {\n            if t.invalid() {")]),
 ('r-fill-skip', None, [(SW, """            if !tri.interior {
                tri.interior = true;
                self.result.push(t);

                for i in 0..3 {
                    if !tri.is_constrained(i) {
                        let new_t = tri.neighbors[i];
                        if new_t != from {
                            triangles.push((new_t, t));
                        }
                    }
                }
            }
""", """            if tri.interior {
                continue;
            }
            tri.interior = true;

            for (i, n) in tri.neighbors.iter().copied().enumerate() {
                if n.invalid() || n == from || tri.is_constrained(i) {
                    continue;
                }
                triangles.push((n, t));
            }
            self.result.push(t);
""")]),
 ('r-fill-start', None, [(SW, """        loop {
            if let Some(tri) = self.triangles.get(t) {
                if !tri.constrained_edge_cw(node.point_id()) {
                    t = tri.neighbor_ccw(node.point_id());
                } else {
                    break;
                }
            } else {
                // no valid triangle found, just break
                break;
            }
        }
""", """        let p = node.point_id();
        while let Some(tri) = self.triangles.get(t) {
            if tri.constrained_edge_cw(p) {
                break;
            }
            t = tri.neighbor_ccw(p);
        }
""")]),
 ('r-fill-helper', None, [(SW, """    fn clean_mesh(&mut self, triangle_id: TriangleId) -> Option<()> {""", """    fn collect(&mut self, t: TriangleId) -> Option<[Option<TriangleId>; 3]> {
        let tri = self.triangles.get_mut(t)?;
        if tri.interior {
            return None;
        }
        tri.interior = true;
        self.result.push(t);
        let mut out = [None; 3];
        for i in 0..3 {
            if !tri.is_constrained(i) {
                out[i] = Some(tri.neighbors[i]);
            }
        }
        Some(out)
    }

    fn clean_mesh(&mut self, triangle_id: TriangleId) -> Option<()> {"""), (SW, """            let tri = self.triangles.get_mut(t).unwrap();

            if !tri.interior {
                tri.interior = true;
                self.result.push(t);

                for i in 0..3 {
                    if !tri.is_constrained(i) {
                        let new_t = tri.neighbors[i];
                        if new_t != from {
                            triangles.push((new_t, t));
                        }
                    }
                }
            }
""", """            if let Some(next) = self.collect(t) {
                for n in next {
                    if let Some(n) = n {
                        if n != from {
                            triangles.push((n, t));
                        }
                    }
                }
            }
""")]),

 ('r-13-loop', None, [(SW, """        assert!(!triangle_id.invalid());

        if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
            return;
        }
""", """        let mut triangle_id = triangle_id;
        loop {
        assert!(!triangle_id.invalid());

        if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
            return;
        }
"""), (SW, """            let triangle_id = if o1.is_cw() {
                triangle.neighbor_ccw(p)
            } else {
                triangle.neighbor_cw(p)
            };

            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
        } else {
            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
        }
""", """            triangle_id = if o1.is_cw() {
                triangle.neighbor_ccw(p)
            } else {
                triangle.neighbor_cw(p)
            };
        } else {
            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
            return;
        }
        }
""")]),
 ('r-13-helper', None, [(SW, """            if self.try_mark_edge_for_triangle(eq, p1, triangle_id) {
                self.edge_event_process(
                    ep,
                    p1,
                    &constrain_edge.with_q(p1, self),
                    neighbor_across_t,
                    p1,
                    triangle_ids,
                );
                return;
            } else {
                panic!("EdgeEvent - collinear points not supported")
            }
""", """            return self.go_on_from(ep, eq, p1, constrain_edge, triangle_id, neighbor_across_t, triangle_ids);
"""), (SW, """            if self.try_mark_edge_for_triangle(eq, p2, triangle_id) {
                self.edge_event_process(
                    ep,
                    p2,
                    &constrain_edge.with_q(p2, self),
                    neighbor_across_t,
                    p2,
                    triangle_ids,
                );

                return;
            } else {
                panic!("collinear points not supported");
            }
""", """            return self.go_on_from(ep, eq, p2, constrain_edge, triangle_id, neighbor_across_t, triangle_ids);
"""), (SW, """    fn edge_event_process(
        &mut self,""", """    fn go_on_from(&mut self, ep: PointId, eq: PointId, via: PointId, edge: &ConstrainedEdge, here: TriangleId, beyond: TriangleId, triangle_ids: &mut Vec<TriangleId>) {
        assert!(self.try_mark_edge_for_triangle(eq, via, here), "collinear points not supported");
        let rest = edge.with_q(via, self);
        self.edge_event_process(ep, via, &rest, beyond, via, triangle_ids);
    }

    fn edge_event_process(
        &mut self,""")]),
 ('r-13-mark-helper', None, [(SW, """        triangle.set_constrained(index, true);
        let neighbor_t_id = triangle.neighbors[index];
        if !neighbor_t_id.invalid() {
            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);
            let index = ot.neighbor_index(t_id);
            ot.set_constrained(index, true);
        }

        true
""", """        let other = triangle.neighbors[index];
        triangle.set_constrained_for_edge(p, q);
        if let Some(ot) = other.into_option().and_then(|o| self.triangles.get_mut(o)) {
            ot.set_constrained_for_edge(q, p);
        }
        true
""")]),
 ('r-13-flip-match', None, [(SW, """                if eq == edge.q_id() && ep == edge.p_id() {
                    self.triangles
                        .get_mut_unchecked(triangle_id)
                        .set_constrained_for_edge(ep, eq);

                    self.triangles
                        .get_mut_unchecked(ot_id)
                        .set_constrained_for_edge(ep, eq);
                }
""", """                if (edge.p_id(), edge.q_id()) == (ep, eq) {
                    for id in [ot_id, triangle_id] {
                        let t = self.triangles.get_mut_unchecked(id);
                        t.set_constrained_for_edge(eq, ep);
                    }
                }
""")]),
 ('r-13-try', None, [(SW, """            if p == eq && op == ep {
                if eq == edge.q_id() && ep == edge.p_id() {
                    self.triangles
                        .get_mut_unchecked(triangle_id)
                        .set_constrained_for_edge(ep, eq);

                    self.triangles
                        .get_mut_unchecked(ot_id)
                        .set_constrained_for_edge(ep, eq);
                }
            } else {""", """            if p == eq && op == ep {
                if eq == edge.q_id() && ep == edge.p_id() {
                    let marked = self.try_mark_edge_for_triangle(ep, eq, triangle_id);
                    debug_assert!(marked);
                }
            } else {""")]),
 ('r-13-del-clear', None, [(SH, "    fn set_delaunay(&mut self, val: bool) {\n", "    fn set_delaunay(&mut self, val: bool) {\n        if val { self.set_constrained(false); }\n")]),
 ('r-05-fold', None, [(CD, """        for polyline in holes.into_iter() {
            self = self.add_hole(polyline);
        }
        self
""", """        holes.into_iter().fold(self, |b, h| b.add_hole(h))
"""), (CD, """    pub fn add_holes(
        mut self,""", """    pub fn add_holes(
        self,""")]),
 ('r-05-foreach', None, [(CD, """        for polyline in holes.into_iter() {
            self = self.add_hole(polyline);
        }
        self
""", """        holes.into_iter().for_each(|h| {
            let (polyline, data) = h.points_and_data();
            parse_polyline(&polyline, &mut self.points_builder);
            self.data.extend(data);
        });
        self
""")]),
 ('r-05-while', None, [(CD, """        for polyline in holes.into_iter() {
            self = self.add_hole(polyline);
        }
        self
""", """        let mut it = holes.into_iter();
        while let Some(polyline) = it.next() {
            self.absorb_outline(polyline);
        }
        self
"""), (CD, """    pub fn add_hole(mut self, polyline: impl PointDataSource<Data = PD>) -> Self {
        let (polyline, data) = polyline.points_and_data();
        parse_polyline(&polyline, &mut self.points_builder);
        self.data.extend(data);

        self
    }
""", """    pub fn add_hole(mut self, polyline: impl PointDataSource<Data = PD>) -> Self {
        self.absorb_outline(polyline);
        self
    }

    fn absorb_outline(&mut self, source: impl PointDataSource<Data = PD>) {
        let (outline, mut extra) = source.points_and_data();
        self.data.append(&mut extra);
        parse_polyline(&outline, &mut self.points_builder);
    }
""")]),
 ('r-05-zip', None, [(CD, """        self.points_builder.add_steiner_points(points);
        self.data.extend(data);
        self
""", """        for p in points {
            self.points_builder.add_steiner_point(p);
        }
        for d in data {
            self.data.push(d);
        }
        self
""")]),
 ('r-05-newviahole', None, [(CD, """        let (polyline, data) = polyline_source.points_and_data();

        let mut points_builder = PointsBuilder::with_capacity(polyline.len());
        parse_polyline(&polyline, &mut points_builder);

        Self {
            points_builder,
            data,
        }
""", """        Self {
            points_builder: PointsBuilder::default(),
            data: Vec::new(),
        }
        .add_hole(polyline_source)
""")]),
 ('r-06-each', None, [(PT, """        self.points.extend(points);
        self.edges.resize(self.points.len(), PointEdges::None);
""", """        for point in points {
            self.add_steiner_point(point);
        }
""")]),
 ('r-06-head', None, [(PT, """        &self.points[..self.points.len() - 2]
    }
""", """        &self.points[..self.head.as_usize()]
    }
""")]),
 ('r-06-split', None, [(PT, """        &self.points[..self.points.len() - 2]
    }
""", """        let n = self.points.len();
        let (real, _fake) = self.points.split_at(n - 2);
        real
    }
""")]),
 ('r-06-fakeend', None, [(PT, """            let head = Point::new(xmin - dx, ymin - dy);
            let head_id = PointId(points.len() as NumType);
            points.push(head);
            edges.push(PointEdges::None);

            let tail = Point::new(xmax + dx, ymin - dy);
            let tail_id = PointId(points.len() as NumType);
            points.push(tail);
            edges.push(PointEdges::None);

            (head_id, tail_id)
""", """            let n = points.len() as NumType;
            let floor = ymin - dy;
            points.extend([Point::new(xmin - dx, floor), Point::new(xmax + dx, floor)]);
            edges.resize(points.len(), PointEdges::None);

            (PointId(n), PointId(n + 1))
""")]),
 ('r-07-flatmap', None, [(CD, """        let mut result = Vec::with_capacity(self.result.len() * 3);

        for triangle_id in self.result.iter() {
            let t = triangle_id.get(&self.triangles);
            result.extend_from_slice(&[
                t.points[0].as_u32(),
                t.points[1].as_u32(),
                t.points[2].as_u32(),
            ]);
        }

        result
""", """        self.result
            .iter()
            .flat_map(|id| id.get(&self.triangles).points)
            .map(|p| p.as_u32())
            .collect()
""")]),
 ('r-07-push', None, [(CD, """        for triangle_id in self.result.iter() {
            let t = triangle_id.get(&self.triangles);
            result.extend_from_slice(&[
                t.points[0].as_u32(),
                t.points[1].as_u32(),
                t.points[2].as_u32(),
            ]);
        }
""", """        for k in 0..self.result.len() {
            let t = self.result[k].get(&self.triangles);
            for p in t.points.iter() {
                result.push(p.as_u32());
            }
        }
""")]),
 ('r-07-get', None, [(CD, """        if self.next < self.result.len() {
            let index = self.next;
            self.next += 1;

            // safety: just checked index less than len
            let tri_id = unsafe { self.result.get_unchecked(index) };
            let triangle = tri_id.get(&self.triangles);

            return Some(Triangle {
                points: [
                    triangle.points[0].get(&self.points),
                    triangle.points[1].get(&self.points),
                    triangle.points[2].get(&self.points),
                ],
            });
        } else {
            None
        }
""", """        let tri_id = *self.result.get(self.next)?;
        self.next += 1;
        let corners = tri_id.get(&self.triangles).points;
        Some(Triangle {
            points: corners.map(|c| c.get(&self.points)),
        })
""")]),
 ('r-08-modulo', None, [(CD, """    let mut point_iter = polyline
        .iter()
        .map(|p| (points.add_steiner_point(*p), p))
        .collect::<Vec<_>>()
        .into_iter();

    if let Some(first_point) = point_iter.next() {
        let mut last_point = first_point;
        loop {
            match point_iter.next() {
                Some(p2) => {
                    let edge = Edge::new(last_point, p2);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    last_point = p2;
                }
                None => {
                    let edge = Edge::new(last_point, first_point);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    break;
                }
            }
        }
    }
""", """    let ids: Vec<PointId> = polyline.iter().map(|p| points.add_steiner_point(*p)).collect();
    let n = ids.len();
    for i in 0..n {
        let j = (i + 1) % n;
        let edge = Edge::new((ids[i], &polyline[i]), (ids[j], &polyline[j]));
        points.get_edges_mut(edge.q).unwrap().push(edge.p);
    }
""")]),
 ('r-08-windows', None, [(CD, """    let mut point_iter = polyline
        .iter()
        .map(|p| (points.add_steiner_point(*p), p))
        .collect::<Vec<_>>()
        .into_iter();

    if let Some(first_point) = point_iter.next() {
        let mut last_point = first_point;
        loop {
            match point_iter.next() {
                Some(p2) => {
                    let edge = Edge::new(last_point, p2);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    last_point = p2;
                }
                None => {
                    let edge = Edge::new(last_point, first_point);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    break;
                }
            }
        }
    }
""", """    let corners = polyline
        .iter()
        .map(|p| (points.add_steiner_point(*p), p))
        .collect::<Vec<_>>();
    for w in corners.windows(2) {
        attach(points, Edge::new(w[0], w[1]));
    }
    if let (Some(first), Some(last)) = (corners.first(), corners.last()) {
        attach(points, Edge::new(*last, *first));
    }
}

fn attach(points: &mut PointsBuilder, edge: Edge) {
    points.get_edges_mut(edge.q).unwrap().push(edge.p);
""")]),
 ('r-08-zip', None, [(CD, """    let mut point_iter = polyline
        .iter()
        .map(|p| (points.add_steiner_point(*p), p))
        .collect::<Vec<_>>()
        .into_iter();

    if let Some(first_point) = point_iter.next() {
        let mut last_point = first_point;
        loop {
            match point_iter.next() {
                Some(p2) => {
                    let edge = Edge::new(last_point, p2);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    last_point = p2;
                }
                None => {
                    let edge = Edge::new(last_point, first_point);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    break;
                }
            }
        }
    }
""", """    let corners = polyline
        .iter()
        .map(|p| (points.add_steiner_point(*p), p))
        .collect::<Vec<_>>();
    for (a, b) in corners.iter().zip(corners.iter().skip(1).chain(corners.first())) {
        let edge = Edge::new(*a, *b);
        points.get_edges_mut(edge.q).unwrap().push(edge.p);
    }
""")]),
 ('r-08-prev', None, [(CD, """    if let Some(first_point) = point_iter.next() {
        let mut last_point = first_point;
        loop {
            match point_iter.next() {
                Some(p2) => {
                    let edge = Edge::new(last_point, p2);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    last_point = p2;
                }
                None => {
                    let edge = Edge::new(last_point, first_point);
                    points.get_edges_mut(edge.q).unwrap().push(edge.p);
                    break;
                }
            }
        }
    }
""", """    let first_point = match point_iter.next() {
        Some(p) => p,
        None => return,
    };
    let mut last_point = first_point;
    for p2 in point_iter {
        let edge = Edge::new(last_point, p2);
        points.get_edges_mut(edge.q).unwrap().push(edge.p);
        last_point = p2;
    }
    let edge = Edge::new(last_point, first_point);
    points.get_edges_mut(edge.q).unwrap().push(edge.p);
""")]),
 ('r-21-bufread', None, [(LD, "        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", ""), (LD, "let mut f = std::fs", "let f = std::fs"), (LD, "for line in value.lines() {\n", "for line in std::io::BufRead::lines(std::io::BufReader::new(f)) {\n            let line = line?;\n            let line = line.as_str();\n")]),
 ('r-21-fsread', None, [(LD, "        let mut f = std::fs::File::options().read(true).open(path)?;\n        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", "        let value = std::fs::read_to_string(path)?;\n")]),
 ('r-21-utf8', None, [(LD, "        let mut f = std::fs::File::options().read(true).open(path)?;\n        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", "        let value = String::from_utf8(std::fs::read(path)?).map_err(|e| LoaderError::Inner(e.into()))?;\n")]),
 ('r-21-match', None, [(LD, "            if line.eq(\"HOLE\") {\n                state = ParseState::Hole;\n                holes.push(vec![]);\n                continue;\n            } else if line.eq(\"STEINER\") {\n                state = ParseState::Steiner;\n                continue;\n            }\n            let Some(point) = parse_point(line)? else {\n                continue\n            };\n", "            let point = match line {\n                \"HOLE\" => {\n                    holes.push(Vec::new());\n                    state = ParseState::Hole;\n                    continue;\n                }\n                \"STEINER\" => {\n                    state = ParseState::Steiner;\n                    continue;\n                }\n                other => match parse_point(other)? {\n                    Some(p) => p,\n                    None => continue,\n                },\n            };\n")]),
 ('r-21-words', None, [(LD, "    let mut iter = line.split_whitespace();\n    let (Some(x), Some(y)) = (iter.next(), iter.next()) else {\n        return Err(LoaderError::Inner(format!(\"invalid point: {line:?}\").into()));\n    };\n    let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;\n    let y = y.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;\n", "    let words = line.split_whitespace().collect::<Vec<_>>();\n    if words.len() < 2 {\n        return Err(LoaderError::Inner(format!(\"invalid point: {line:?}\").into()));\n    }\n    let number = |w: &str| w.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()));\n    let x = number(words[0])?;\n    let y = number(words[1])?;\n")]),
 ('r-21-match2', None, [(LD, "    let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;\n    let y = y.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;\n\n    Ok(Some(Point::new(x, y)))", "    match (x.parse::<Float>(), y.parse::<Float>()) {\n        (Ok(x), Ok(y)) => Ok(Some(Point::new(x, y))),\n        (Err(e), _) | (_, Err(e)) => Err(LoaderError::Inner(Box::new(e))),\n    }")]),
 ('r-22-eachhole', None, [(LD, "        Ok(Builder::new(polygon)\n            .add_holes(holes)\n            .add_steiner_points(steiner_points))", "        let mut builder = Builder::new(polygon);\n        for hole in holes {\n            builder = builder.add_hole(hole);\n        }\n        for p in steiner_points {\n            builder = builder.add_steiner_point(p, ());\n        }\n        Ok(builder)")]),
 ('r-22-noempty', None, [(LD, "        Ok(Builder::new(polygon)\n", "        let holes = holes.into_iter().filter(|h| !h.is_empty()).collect::<Vec<_>>();\n        Ok(Builder::new(polygon)\n")]),
 ('r-22-current', None, [(LD, "            match state {\n                ParseState::Polygon => {\n                    polygon.push(point);\n                }\n                ParseState::Hole => {\n                    let current_hole = holes.last_mut().unwrap();\n                    current_hole.push(point);\n                }\n                ParseState::Steiner => {\n                    steiner_points.push(point);\n                }\n            }\n", "            let target = match state {\n                ParseState::Polygon => &mut polygon,\n                ParseState::Hole => {\n                    let n = holes.len();\n                    &mut holes[n - 1]\n                }\n                ParseState::Steiner => &mut steiner_points,\n            };\n            target.push(point);\n")]),
 # ---- C01
 ('r-k-disjoint', None, [(TR, "        assert!(\n            id_0 != id_1\n                && id_0.as_usize() < self.triangles.len()\n                && id_1.as_usize() < self.triangles.len()\n        );\n\n        let slice: *mut InnerTriangle = self.triangles.as_mut_ptr();\n\n        // satefy: asserted that id_0 != id_1 && id_0 < len && id_1 < len\n        let ref_0 = unsafe { &mut *slice.add(id_0.as_usize()) };\n        let ref_1 = unsafe { &mut *slice.add(id_1.as_usize()) };\n\n        (ref_0, ref_1)\n", "        let n = self.triangles.len();\n        let (a, b) = (id_0.as_usize(), id_1.as_usize());\n        if a == b || a >= n || b >= n {\n            panic!(\"bad pair\");\n        }\n        let base = self.triangles.as_mut_ptr();\n        // safety: both checked\n        unsafe { (&mut *base.add(a), &mut *base.add(b)) }\n")]),
 ('r-k-split', None, [(TR, "        assert!(\n            id_0 != id_1\n                && id_0.as_usize() < self.triangles.len()\n                && id_1.as_usize() < self.triangles.len()\n        );\n\n        let slice: *mut InnerTriangle = self.triangles.as_mut_ptr();\n\n        // satefy: asserted that id_0 != id_1 && id_0 < len && id_1 < len\n        let ref_0 = unsafe { &mut *slice.add(id_0.as_usize()) };\n        let ref_1 = unsafe { &mut *slice.add(id_1.as_usize()) };\n\n        (ref_0, ref_1)\n", "        let (a, b) = (id_0.as_usize(), id_1.as_usize());\n        assert!(a != b);\n        if a < b {\n            let (l, r) = self.triangles.split_at_mut(b);\n            (&mut l[a], &mut r[0])\n        } else {\n            let (l, r) = self.triangles.split_at_mut(a);\n            (&mut r[0], &mut l[b])\n        }\n")]),
 ('r-k-at', None, [(AF, "    fn search_by_key(&self", "    /// safety: idx has to be below the number of nodes\n    unsafe fn at(&self, idx: usize) -> NodeRef {\n        unsafe { self.nodes.get_unchecked(idx) }.to_node(idx, self)\n    }\n\n    fn search_by_key(&self"), (AF, "            Some(unsafe { self.nodes.get_unchecked(idx) }.to_node(idx, self))\n        } else {", "            Some(unsafe { self.at(idx) })\n        } else {"), (AF, "        // safety: idx checked above\n        Some(unsafe { self.nodes.get_unchecked(idx) }.to_node(idx, self))\n    }\n\n    /// Get prev node", "        // safety: idx checked above\n        Some(unsafe { self.at(idx) })\n    }\n\n    /// Get prev node")]),
 ('r-k-trinext', None, [(CD, "        if self.next < self.result.len() {\n            let index = self.next;\n            self.next += 1;\n\n            // safety: just checked index less than len\n            let tri_id = unsafe { self.result.get_unchecked(index) };\n            let triangle", "        if let Some(tri_id) = self.result.get(self.next) {\n            self.next += 1;\n            let triangle")]),
 ('r-k-prev', None, [(AF, "        if node.index == 0 {\n            return None;\n        }\n\n        let index = node.index - 1;", "        let index = node.index.checked_sub(1)?;")]),
 ('r-k-prevget', None, [(AF, "        if node.index == 0 {\n            return None;\n        }\n\n        let index = node.index - 1;\n        // satefy: idx checked above\n        Some(unsafe { self.nodes.get_unchecked(index) }.to_node(index, self))", "        let index = node.index.checked_sub(1)?;\n        self.nodes.get(index).map(|e| e.to_node(index, self))")]),
 ('r-k-cachekeep', None, [(AF, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        if matches!(self.access_cache, Some((_, i)) if i >= delete_index) {\n            self.access_cache = None;\n        }")]),
 ('r-k-locate', None, [(AF, "            Err(idx) => idx.checked_sub(1)?,\n", "            Err(0) => return None,\n            Err(idx) => idx - 1,\n")]),
 ('r-k-getpoint', None, [(PT, "        self.points.get(point_id.as_usize()).cloned()\n", "        if point_id.as_usize() >= self.points.len() {\n            return None;\n        }\n        // safety: just checked\n        Some(unsafe { self.get_point_uncheck(point_id) })\n")]),
 ('r-k-nth', None, [(AF, "self.nodes.get(n).map(|entry| entry.to_node(n, self))", "if n < self.nodes.len() {\n            Some(unsafe { self.nodes.get_unchecked(n) }.to_node(n, self))\n        } else {\n            None\n        }")]),
 ('r-k-mintlen', None, [(PT, "        let point_id = PointId(self.points.len() as NumType);\n        self.points.push(point);\n        self.edges.push(PointEdges::None);\n        point_id", "        self.points.push(point);\n        self.edges.push(PointEdges::None);\n        PointId((self.points.len() - 1) as NumType)")]),
 ('r-k-insertid', None, [(TR, "        let id = TriangleId::from_index(self.triangles.len());\n        self.triangles.push(triangle);\n        id", "        self.triangles.push(triangle);\n        TriangleId(self.triangles.len() - 1)")]),
 ('r-k-sixopt', None, [(TR, "        let ref_2 = if !id_2.invalid() {\n            Some(unsafe { &mut *slice.add(id_2.as_usize()) })\n        } else {\n            None\n        };\n", "        let ref_2 = id_2\n            .into_option()\n            .map(|id| unsafe { &mut *slice.add(id.as_usize()) });\n")]),
 ('r-k-iterpoint', None, [(PT, "            let point = unsafe { self.points.get_unchecked(id.as_usize()).clone() };\n            let edges = unsafe { self.edges.get_unchecked(id.as_usize()).clone() };", "            let i = id.as_usize();\n            let (point, edges) = (self.points[i], self.edges[i]);")]),
 ('r-basin-loop', None, [(SW, '        if basin.completed(node.point()) {\n            return None;\n        }\n\n        let fill_one = self.fill_one(node, observer).expect("already in basin");\n        let prev = fill_one.prev;\n        let next = fill_one.next;\n\n        if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {\n            return Some(());\n        }\n\n        let new_node = if prev.point().eq(&basin.left) {\n            let next = self.advancing_front.get_node_with_id(next).unwrap();\n            let next_next = next.next().unwrap();\n            if orient_2d(node.point(), next.point(), next_next.point()).is_cw() {\n                return None;\n            }\n\n            next.get_node_id()\n        } else if next.point().eq(&basin.right) {\n            let prev = self.advancing_front.get_node_with_id(prev).unwrap();\n            let prev_prev = prev.prev()?;\n            if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {\n                return None;\n            }\n\n            prev.get_node_id()\n        } else {\n            // continue with the neighbor node with lowest Y value\n            if prev.point().y < next.point().y {\n                prev\n            } else {\n                next\n            }\n        };\n\n        self.fill_basin_req(new_node, basin, observer)\n    }\n', '        let mut node = node;\n        loop {\n            if basin.completed(node.point()) {\n                return None;\n            }\n            let FillOne { prev, next } = self.fill_one(node, observer).expect("already in basin");\n            let at_left = prev.point().eq(&basin.left);\n            let at_right = next.point().eq(&basin.right);\n            node = match (at_left, at_right) {\n                (true, true) => return Some(()),\n                (true, false) => {\n                    let at = self.advancing_front.get_node_with_id(next).unwrap();\n                    let far = at.next().unwrap();\n                    if orient_2d(node.point(), next.point(), far.point()).is_cw() {\n                        return None;\n                    }\n                    next\n                }\n                (false, true) => {\n                    let at = self.advancing_front.get_node_with_id(prev).unwrap();\n                    let far = at.prev()?;\n                    if orient_2d(node.point(), prev.point(), far.point()).is_ccw() {\n                        return None;\n                    }\n                    prev\n                }\n                (false, false) => {\n                    if next.point().y > prev.point().y { prev } else { next }\n                }\n            };\n        }\n    }\n')]),
 ('r-walk-right', None, [(SW, '            // fill right holes\n            let mut node_id = node_id.clone();\n            while let Some(next_node) = self.advancing_front.locate_next_node(node_id) {\n                if next_node.next().is_some() {\n                    // if HoleAngle exceeds 90 degrees then break\n                    if Self::should_fill(&next_node) {\n                        break;\n                    }\n                    let next_node_id = next_node.get_node_id();\n\n                    node_id = match self.fill_one(next_node_id, observer) {\n                        Some(fill_one) => fill_one.next,\n                        None => next_node_id,\n                    };\n                } else {\n                    break;\n                }\n            }\n        }\n', '            // fill right holes\n            let mut at = node_id;\n            loop {\n                let Some(corner) = self.advancing_front.locate_next_node(at) else { break };\n                if corner.next().is_none() || Self::should_fill(&corner) {\n                    break;\n                }\n                let corner = corner.get_node_id();\n                at = self.fill_one(corner, observer).map(|x| x.next).unwrap_or(corner);\n            }\n        }\n')]),
 ('r-walk-left', None, [(SW, '            while let Some(prev_node) = self.advancing_front.locate_prev_node(node_id) {\n                if prev_node.prev().is_some() {\n                    // if HoleAngle exceeds 90 degrees then break\n                    if Self::should_fill(&prev_node) {\n                        break;\n                    }\n\n                    node_id = prev_node.get_node_id();\n                    self.fill_one(node_id, observer);\n                } else {\n                    break;\n                }\n            }\n', '            let mut corner = self.advancing_front.locate_prev_node(node_id).map(|n| n.get_node_id());\n            while let Some(id) = corner {\n                {\n                    let node = self.advancing_front.get_node_with_id(id).unwrap();\n                    if node.prev().is_none() || Self::should_fill(&node) {\n                        break;\n                    }\n                }\n                self.fill_one(id, observer);\n                node_id = id;\n                corner = self.advancing_front.locate_prev_node(node_id).map(|n| n.get_node_id());\n            }\n')]),
 ('r-should', None, [(SW, '        let angle = crate::utils::Angle::new(node.point(), next.point(), prev_node.point());\n\n        if angle.is_negative() {\n            // negative means next -> node -> prev is cw, then it is not a hole\n            return true;\n        } else if !angle.exceeds_90_degree() {\n            // we only fill holes with angle less than PI/2\n            // otherwise we generate many bad shaped triangles\n            // that needs rotated later\n            return false;\n        }\n\n        if let Some(next_next) = next.next() {\n            if Angle::new(node.point(), next_next.point(), prev_node.point())\n                .between_0_to_90_degree()\n            {\n                return false;\n            }\n        }\n\n        if let Some(prev_prev) = prev_node.prev() {\n            if Angle::new(node.point(), next.point(), prev_prev.point()).between_0_to_90_degree() {\n                return false;\n            }\n        }\n\n        true\n    }\n', '        let (o, a, b) = (node.point(), next.point(), prev_node.point());\n        let angle = Angle::new(o, a, b);\n        if !angle.is_negative() && !angle.exceeds_90_degree() {\n            return false;\n        }\n        let acute = |a, b| Angle::new(o, a, b).between_0_to_90_degree();\n        angle.is_negative()\n            || !(next.next().map_or(false, |n| acute(n.point(), b))\n                || prev_node.prev().map_or(false, |n| acute(a, n.point())))\n    }\n')]),
 ('r-basin-shape', None, [(SW, "        let left: NodeRef<'_>;\n        if orient_2d(\n            node_point.point(),\n            next_node.point(),\n            next_next_node.point(),\n        )\n        .is_ccw()\n        {\n            left = next_next_node;\n        } else {\n            left = next_node;\n        }\n\n        // find the bottom\n        let mut bottom = left.clone();\n        while let Some(next_node) = bottom.next() {\n            if bottom.point().y >= next_node.point().y {\n                bottom = next_node;\n            } else {\n                break;\n            }\n        }\n\n        // no valid basin\n", "        let turn = orient_2d(node_point.point(), next_node.point(), next_next_node.point());\n        let left: NodeRef<'_> = if turn.is_ccw() { next_next_node } else { next_node };\n\n        // find the bottom\n        let mut bottom = left.clone();\n        loop {\n            match bottom.next() {\n                Some(n) if n.point().y <= bottom.point().y => bottom = n,\n                _ => break,\n            }\n        }\n\n        // no valid basin\n")]),
 ('r-fill-noflat', None, [(SW, "        if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {\n            return Some(());\n        }\n", ""), (SW, "        if right.point_id() == bottom.point_id() {\n            // no valid basin\n            return None;\n        }\n", "")]),
 ('r-basin-cond', None, [(SW, "        if self.basin_angle_satisfy(node_id) {\n            self.fill_basin(node_id, observer);\n        }\n", "        if !self.basin_angle_satisfy(node_id) {\n            return;\n        }\n        let _ = self.fill_basin(node_id, observer);\n")]),
# ---- C36
 ('r-turn-match', None, [(SW, """        if o1 == o2 {
            // need to decide if we are rotating cw or ccw to get to a triangle
            // that will cross edge
            let triangle_id = if o1.is_cw() {
                triangle.neighbor_ccw(p)
            } else {
                triangle.neighbor_cw(p)
            };

            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
        } else {
            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
        }
""", """        let next = match (o1.is_cw(), o2.is_cw()) {
            (true, true) => Some(triangle.neighbor_ccw(p)),
            (false, false) => Some(triangle.neighbor_cw(p)),
            _ => None,
        };
        match next {
            Some(next) => self.edge_event_process(ep, eq, constrain_edge, next, p, triangle_ids),
            None => self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids),
        }
""")]),
 ('r-next-inline', None, [(SW, """                let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
""", """                let (crossing, clear) = match o {
                    Orientation::CCW => (triangle_id, ot_id),
                    _ => (ot_id, triangle_id),
                };
                legalize_queue.push(clear);
                self.flip_edge_event(ep, eq, edge, crossing, p, legalize_queue);
"""), (SW, """    fn next_flip_triangle(
        o: Orientation,
        t: TriangleId,
        ot: TriangleId,
        triangle_ids: &mut Vec<TriangleId>,
    ) -> TriangleId {
        if o.is_ccw() {
            // ot is not crossing edge after flip
            triangle_ids.push(ot);
            t
        } else {
            // t is not crossing edge after flip
            triangle_ids.push(t);
            ot
        }
    }
""", "")]),
 ('r-drain-index', None, [(SW, """        for triangle_id in triangle_ids.drain(..) {
            self.legalize(triangle_id, observer);
        }
        self.triangle_id_queue""", """        for i in 0..triangle_ids.len() {
            self.legalize(triangle_ids[i], observer);
        }
        triangle_ids.clear();
        self.triangle_id_queue""")]),
 ('r-can-flip', None, [(SW, """        if in_scan_area(
            p.get(&self.points),
            t.point_ccw(p).get(&self.points),
            t.point_cw(p).get(&self.points),
            op.get(&self.points),
        ) {
            // lets""", """        if self.in_area_of(triangle_id, p, op) {
            // lets"""), (SW, """        if in_scan_area(
            eq.get(&self.points),
            p1.get(&self.points),
            p2.get(&self.points),
            op.get(&self.points),
        ) {
            // flip""", """        if self.in_area_of(flip_triangle_id, eq, op) {
            // flip"""), (SW, """        let flip_triangle = flip_triangle_id.get(&self.triangles);
        let p1 = flip_triangle.point_ccw(eq);
        let p2 = flip_triangle.point_cw(eq);
""", ""), (SW, """    fn next_flip_triangle(""", """    /// whether `d` is in the scan area of triangle `t` seen from its corner `p`
    fn in_area_of(&self, t: TriangleId, p: PointId, d: PointId) -> bool {
        let t = t.get(&self.triangles);
        let (a, b) = (t.point_ccw(p), t.point_cw(p));
        let at = |x: PointId| x.get(self.points);
        in_scan_area(at(p), at(a), at(b), at(d))
    }

    fn next_flip_triangle(""")]),
 ('r-scan-loop', None, [(SW, """        let t = t_id.get(&self.triangles);
        let ot = t.neighbor_across(p);
        if ot.invalid() {
            panic!("flip_scan_edge_event - null neighbor across");
        }

        let op = ot.get(&self.triangles).opposite_point(t, p);
""", """        let (mut t_id, mut p) = (t_id, p);
        let (ot, op) = loop {
            let t = t_id.get(&self.triangles);
            let ot = t.neighbor_across(p);
            if ot.invalid() {
                panic!("flip_scan_edge_event - null neighbor across");
            }
            let op = ot.get(&self.triangles).opposite_point(t, p);
            let f = flip_triangle_id.get(&self.triangles);
            if in_scan_area(
                eq.get(&self.points),
                f.point_ccw(eq).get(&self.points),
                f.point_cw(eq).get(&self.points),
                op.get(&self.points),
            ) {
                break (ot, op);
            }
            p = self.next_flip_point(ep, eq, ot, op);
            t_id = ot;
        };
""")]),
 ('r-beyond-match', None, [(SW, """        let beyond = t.neighbor_across(p);
        if !beyond.invalid() {
            return beyond;
        }

        let Some(index) = t.edge_index(p, q) else { return beyond; };
        match self.triangles.get(t.neighbors[index]) {
            Some(ot) => ot.neighbor_across(p),
            None => beyond,
        }
""", """        let beyond = t.neighbor_across(p);
        match t.edge_index(p, q) {
            Some(index) if beyond.invalid() => match self.triangles.get(t.neighbors[index]) {
                Some(ot) => ot.neighbor_across(p),
                None => beyond,
            },
            _ => beyond,
        }
""")]),
 ('r-final-for', None, [(SW, """        let mut n = 1;
        while !self.finalize_from_node(n)? {
            n += 1;
        }

        Some(())
""", """        for n in 1.. {
            if self.finalize_from_node(n)? {
                break;
            }
        }

        Some(())
""")]),
 ('r-process-points', None, [(SW, """        let p1 = triangle.point_ccw(p);
        let o1 = orient_2d(
            eq.get(&self.points),
            p1.get(&self.points),
            ep.get(&self.points),
        );
""", """        let p1 = triangle.point_ccw(p);
        let side = |x: PointId| orient_2d(eq.get(self.points), x.get(self.points), ep.get(self.points));
        let o1 = side(p1);
""")]),
('r-nth','C07',[(CD,"impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n","impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn nth(&mut self, n: usize) -> Option<Triangle> {\n        self.next = self.next.saturating_add(n).min(self.result.len());\n        self.next()\n    }\n")]),
('r-count','C07',[(CD,"impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n","impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn count(self) -> usize {\n        self.result.len() - self.next\n    }\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        let left = self.result.len() - self.next;\n        (left, Some(left))\n    }\n")]),
# third fresh batch
('r-3-evenperm',None,[(UT,'        robust::Coord { x: a.x, y: a.y },\n        robust::Coord { x: b.x, y: b.y },\n        robust::Coord { x: c.x, y: c.y },\n    );\n','        robust::Coord { x: b.x, y: b.y },\n        robust::Coord { x: c.x, y: c.y },\n        robust::Coord { x: a.x, y: a.y },\n    );\n'), (UT,'        robust::Coord { x: pa.x, y: pa.y },\n        robust::Coord { x: pb.x, y: pb.y },\n        robust::Coord { x: pc.x, y: pc.y },','        robust::Coord { x: pb.x, y: pb.y },\n        robust::Coord { x: pc.x, y: pc.y },\n        robust::Coord { x: pa.x, y: pa.y },')]),
('r-3-coordfn',None,[(UT,'pub fn orient_2d(','fn coord(p: Point) -> robust::Coord<Float> {\n    robust::Coord { x: p.x, y: p.y }\n}\n\npub fn orient_2d('), (UT,'        robust::Coord { x: a.x, y: a.y },\n        robust::Coord { x: b.x, y: b.y },\n        robust::Coord { x: c.x, y: c.y },\n    );\n\n    if val > 0. {\n        Orientation::CCW\n    } else if val < 0. {\n        Orientation::CW\n    } else {\n        Orientation::Collinear\n    }','        coord(a),\n        coord(b),\n        coord(c),\n    );\n\n    match val.partial_cmp(&0.) {\n        Some(std::cmp::Ordering::Greater) => Orientation::CCW,\n        Some(std::cmp::Ordering::Less) => Orientation::CW,\n        _ => Orientation::Collinear,\n    }')]),
('r-3-angle',None,[(UT,'        if self.dx == 0. && self.dy == 0. {\n            true\n        } else if self.dx > 0. {\n            self.dy > 0.\n        } else {\n            false\n        }','        (self.dx > 0. && self.dy > 0.) || (self.dx == 0. && self.dy == 0.)'), (UT,'        if self.dx == 0. && self.dy == 0. {\n            false\n        } else if self.dx >= 0. {\n            self.dy < 0.\n        } else {\n            self.dy < 0.\n        }','        self.dy < 0.')]),
('r-3-sortpartial',None,[(PT,'            if p1.y < p2.y {\n                Ordering::Less\n            } else if p1.y == p2.y {\n                if p1.x < p2.x {\n                    Ordering::Less\n                } else {\n                    Ordering::Greater\n                }\n            } else {\n                Ordering::Greater\n            }','            match p1.y.partial_cmp(&p2.y) {\n                Some(Ordering::Less) => Ordering::Less,\n                Some(Ordering::Equal) if p1.x < p2.x => Ordering::Less,\n                _ => Ordering::Greater,\n            }')]),
('r-3-bounds',None,[(PT,'        let mut unsorted_points = points\n            .iter()\n            .enumerate()\n            .map(|(idx, p)| {\n                xmax = xmax.max(p.x);\n                xmin = xmin.min(p.x);\n                ymax = ymax.max(p.y);\n                ymin = ymin.min(p.y);\n                (PointId(idx as NumType), p)\n            })\n            .collect::<Vec<_>>();','        for p in &points {\n            xmax = xmax.max(p.x);\n            xmin = xmin.min(p.x);\n            ymax = ymax.max(p.y);\n            ymin = ymin.min(p.y);\n        }\n\n        let mut unsorted_points = points\n            .iter()\n            .enumerate()\n            .map(|(idx, p)| (PointId(idx as NumType), p))\n            .collect::<Vec<_>>();')]),
('r-3-poly',None,[(CD,'    if let Some(first_point) = point_iter.next() {\n        let mut last_point = first_point;\n        loop {\n            match point_iter.next() {\n                Some(p2) => {\n                    let edge = Edge::new(last_point, p2);\n                    points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    last_point = p2;\n                }\n                None => {\n                    let edge = Edge::new(last_point, first_point);\n                    points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    break;\n                }\n            }\n        }\n    }','    let Some(first_point) = point_iter.next() else {\n        return;\n    };\n\n    let mut add_edge = |from, to| {\n        let Edge { p, q } = Edge::new(from, to);\n        points.get_edges_mut(q).unwrap().push(p);\n    };\n\n    let mut last_point = first_point;\n    for p2 in point_iter {\n        add_edge(last_point, p2);\n        last_point = p2;\n    }\n    add_edge(last_point, first_point);')]),
('r-3-corner',None,[(SH,'    /// The point clockwise to given point\n    pub fn point_cw(&self, point: PointId) -> PointId {\n        if point == self.points[0] {\n            self.points[2]\n        } else if point == self.points[1] {\n            self.points[0]\n        } else if point == self.points[2] {\n            self.points[1]\n        } else {\n            panic!("point not belongs to triangle");\n        }','    fn corner(&self, point: PointId) -> usize {\n        match self.points.iter().position(|p| *p == point) {\n            Some(i) => i,\n            None => panic!("point not belongs to triangle"),\n        }\n    }\n\n    /// The point clockwise to given point\n    pub fn point_cw(&self, point: PointId) -> PointId {\n        self.points[(self.corner(point) + 2) % 3]'), (SH,'        if point == self.points[0] {\n            self.points[1]\n        } else if point == self.points[1] {\n            self.points[2]\n        } else if point == self.points[2] {\n            self.points[0]\n        } else {\n            panic!("point not belongs to triangle");\n        }','        self.points[(self.corner(point) + 1) % 3]'), (SH,'        if p == self.points[0] {\n            self.neighbors[2]\n        } else if p == self.points[1] {\n            self.neighbors[0]\n        } else if p == self.points[2] {\n            self.neighbors[1]\n        } else {\n            panic!("point not belongs to triangle");\n        }','        self.neighbors[(self.corner(p) + 2) % 3]')]),
('r-3-attr',None,[(SH,'    const CONSTRAINED_UNSET: u8 = Self::ALL ^ Self::CONSTRAINED;','    const CONSTRAINED_UNSET: u8 = !Self::CONSTRAINED;'), (SH,'        if !val {\n            self.0 &= Self::DELAUNAY_UNSET;\n        } else {\n            self.0 |= Self::DELAUNAY;\n        }','        self.0 = if val { self.0 | Self::DELAUNAY } else { self.0 & Self::DELAUNAY_UNSET };')]),
('r-3-clean',None,[(SW,'            if t.invalid() {\n                continue;\n            }\n\n            let tri = self.triangles.get_mut(t).unwrap();\n\n            if !tri.interior {\n                tri.interior = true;\n                self.result.push(t);\n\n                for i in 0..3 {\n                    if !tri.is_constrained(i) {\n                        let new_t = tri.neighbors[i];\n                        if new_t != from {\n                            triangles.push((new_t, t));\n                        }\n                    }\n                }\n            }','            let Some(tri) = self.triangles.get_mut(t) else {\n                continue;\n            };\n\n            if std::mem::replace(&mut tri.interior, true) {\n                continue;\n            }\n            self.result.push(t);\n\n            for (i, &new_t) in tri.neighbors.iter().enumerate() {\n                if tri.is_constrained(i) || new_t == from {\n                    continue;\n                }\n                triangles.push((new_t, t));\n            }')]),
('r-3-finalloop',None,[(SW,'        loop {\n            if let Some(tri) = self.triangles.get(t) {\n                if !tri.constrained_edge_cw(node.point_id()) {\n                    t = tri.neighbor_ccw(node.point_id());\n                } else {\n                    break;\n                }\n            } else {\n                // no valid triangle found, just break\n                break;\n            }\n        }','        let point_id = node.point_id();\n        while let Some(tri) = t.try_get(&self.triangles) {\n            if tri.constrained_edge_cw(point_id) {\n                break;\n            }\n            t = tri.neighbor_ccw(point_id);\n        }')]),
('r-3-legal',None,[(SW,'                let illegal = in_circle(\n                    p.get(&self.points),\n                    triangle.point_ccw(p).get(&self.points),\n                    triangle.point_cw(p).get(&self.points),\n                    op.get(&self.points),\n                );\n                if illegal {','                let [a, b, c] = [p, triangle.point_ccw(p), triangle.point_cw(p)].map(|id| id.get(&self.points));\n                if in_circle(a, b, c, op.get(&self.points)) {')]),
('r-3-remap',None,[(SW,'        for i in 0..3 {\n            if triangle.neighbors[i].invalid() {\n                let point = unsafe {\n                    self.points\n                        .get_point_uncheck(triangle.point_cw(triangle.points[i]))\n                };\n                self.advancing_front.update_triangle(point, triangle_id);\n            }\n        }','        for (i, corner) in triangle.points.into_iter().enumerate() {\n            if !triangle.neighbors[i].invalid() {\n                continue;\n            }\n            let point = triangle.point_cw(corner).get(self.points);\n            self.advancing_front.update_triangle(point, triangle_id);\n        }')]),
('r-3-linkouter',None,[(SW,'        if let Some(t_n2) = t_n2 {\n            TriangleStore::mark_neighbor_for_two_mut(t_id, n2, t, t_n2);\n        }\n        if let Some(t_n3) = t_n3 {\n            TriangleStore::mark_neighbor_for_two_mut(t_id, n3, t, t_n3);\n        }','        for (n, t_n) in [(n2, t_n2), (n3, t_n3)] {\n            if let Some(t_n) = t_n {\n                TriangleStore::mark_neighbor_for_two_mut(t_id, n, t, t_n);\n            }\n        }')]),
('r-3-fillfront',None,[(SW,'                if prev_node.prev().is_some() {\n                    // if HoleAngle exceeds 90 degrees then break\n                    if Self::should_fill(&prev_node) {\n                        break;\n                    }\n\n                    node_id = prev_node.get_node_id();\n                    self.fill_one(node_id, observer);\n                } else {\n                    break;\n                }','                // if HoleAngle exceeds 90 degrees then break\n                if prev_node.prev().is_none() || Self::should_fill(&prev_node) {\n                    break;\n                }\n\n                node_id = prev_node.get_node_id();\n                self.fill_one(node_id, observer);')]),
('r-3-belowloop',None,[(SW,'        if node_id.point().x > edge.p.x {\n            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();','        if node_id.point().x <= edge.p.x {\n            return None;\n        }\n        {\n            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();'), (SW,'                self.fill_left_below_edge_event(edge, node_id, observer);\n            }\n            Some(())\n        } else {\n            None\n        }','                self.fill_left_below_edge_event(edge, node_id, observer);\n            }\n            Some(())\n        }')]),
('r-3-collhelper',None,[(SW,'        if o1.is_collinear() {\n            let neighbor_across_t = self.triangle_beyond(triangle_id, p, p1);\n            if self.try_mark_edge_for_triangle(eq, p1, triangle_id) {\n                self.edge_event_process(\n                    ep,\n                    p1,\n                    &constrain_edge.with_q(p1, self),\n                    neighbor_across_t,\n                    p1,\n                    triangle_ids,\n                );\n                return;\n            } else {\n                panic!("EdgeEvent - collinear points not supported")\n            }\n        }','        if o1.is_collinear() {\n            return self.pass_corner(ep, eq, constrain_edge, triangle_id, p, p1, triangle_ids);\n        }'), (SW,'    fn flip_edge_event(\n','    fn pass_corner(\n        &mut self,\n        ep: PointId,\n        eq: PointId,\n        constrain_edge: &ConstrainedEdge,\n        triangle_id: TriangleId,\n        p: PointId,\n        corner: PointId,\n        triangle_ids: &mut Vec<TriangleId>,\n    ) {\n        let beyond = self.triangle_beyond(triangle_id, p, corner);\n        if !self.try_mark_edge_for_triangle(eq, corner, triangle_id) {\n            panic!("EdgeEvent - collinear points not supported")\n        }\n        let rest = constrain_edge.with_q(corner, self);\n        self.edge_event_process(ep, corner, &rest, beyond, corner, triangle_ids);\n    }\n\n    fn flip_edge_event(\n')]),
('r-3-basinwalk',None,[(SW,'        while let Some(next_node) = bottom.next() {\n            if bottom.point().y >= next_node.point().y {\n                bottom = next_node;\n            } else {\n                break;\n            }\n        }','        loop {\n            match bottom.next() {\n                Some(next_node) if next_node.point().y <= bottom.point().y => bottom = next_node,\n                _ => break,\n            }\n        }')]),
('r-3-locate',None,[(AF,'        let idx = match self.search_by_key(&key) {\n            Err(idx) => idx.checked_sub(1)?,\n            Ok(idx) => idx,\n        };\n        // safety: idx is checked\n        let entry = unsafe { self.nodes.get_unchecked(idx) };\n        Some(entry.to_node(idx, self))','        let idx = self\n            .search_by_key(&key)\n            .or_else(|idx| idx.checked_sub(1).ok_or(()))\n            .ok()?;\n        self.nodes.get(idx).map(|entry| entry.to_node(idx, self))')]),
('r-3-ord',None,[(AF,'        match self.0.x.partial_cmp(&other.0.x) {\n            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),\n            x_order => {\n                return x_order;\n            }\n        }','        let x_order = self.0.x.partial_cmp(&other.0.x);\n        if x_order.is_some() && x_order != Some(Ordering::Equal) {\n            x_order\n        } else {\n            self.0.y.partial_cmp(&other.0.y)\n        }')]),
('r-3-hint',None,[(AF,'        match self.nodes.get(node_id.index_hint) {\n            Some(entry) if entry.node.point_id == node_id.point_id => {\n                // index_hint match\n                Ok(node_id.index_hint)\n            }\n            _ => {\n                let idx = self.search_by_key(&PointKey(node_id.point))?;\n                Ok(idx)\n            }\n        }','        let hint = node_id.index_hint;\n        let fresh = self\n            .nodes\n            .get(hint)\n            .map_or(false, |entry| entry.node.point_id == node_id.point_id);\n        if fresh {\n            return Ok(hint);\n        }\n        self.search_by_key(&PointKey(node_id.point))')]),
]
M += [
 ('r-4-clean2', None, [(SW, """            let tri = self.triangles.get_mut(t).unwrap();

            if !tri.interior {
                tri.interior = true;
                self.result.push(t);

                for i in 0..3 {
                    if !tri.is_constrained(i) {
                        let new_t = tri.neighbors[i];
                        if new_t != from {
                            triangles.push((new_t, t));
                        }
                    }
                }
            }
""", """            let tri = self.triangles.get_mut_unchecked(t);
            if tri.interior {
                continue;
            }
            tri.interior = true;
            let neighbors = tri.neighbors;
            let blocked = [0, 1, 2].map(|i| tri.is_constrained(i));
            self.result.push(t);
            triangles.extend(
                neighbors
                    .into_iter()
                    .zip(blocked)
                    .filter(|(n, b)| !*b && *n != from && !n.invalid())
                    .map(|(n, _)| (n, t)),
            );
""")]),
 ('r-4-nofrom', None, [(SW, "        let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());\n        triangles.push((triangle_id, TriangleId::INVALID));\n\n        while let Some((t, from)) = triangles.pop() {",
   "        let mut triangles = Vec::<TriangleId>::with_capacity(self.points.len());\n        triangles.push(triangle_id);\n\n        while let Some(t) = triangles.pop() {"),
   (SW, """                        if new_t != from {
                            triangles.push((new_t, t));
                        }
""", "                        triangles.push(new_t);\n")]),
 ('r-4-newtri', None, [(SW, """        let triangle = self.triangles.insert(InnerTriangle::new(
            point_id,
            node.point_id(),
            next_node.point_id(),
        ));
        let node_triangle = node.triangle.unwrap();
        self.triangles.mark_neighbor(node_triangle, triangle);
""", """        let node_triangle = node.triangle.unwrap();
        let triangle = new_triangle(
            self.triangles,
            [point_id, node.point_id(), next_node.point_id()],
            &[node_triangle],
        );
"""), (SW, """        let new_triangle = self.triangles.insert(InnerTriangle::new(
            prev_node.point_id(),
            node.point_id(),
            next_node.point_id(),
        ));

        self.triangles
            .mark_neighbor(new_triangle, prev_node.triangle.unwrap());
        self.triangles
            .mark_neighbor(new_triangle, node.triangle.unwrap());
""", """        let new_triangle = new_triangle(
            self.triangles,
            [prev_node.point_id(), node.point_id(), next_node.point_id()],
            &[prev_node.triangle.unwrap(), node.triangle.unwrap()],
        );
"""), (SW, "struct FillOne {", """/// add a triangle next to `neighbors`
fn new_triangle(
    triangles: &mut TriangleStore,
    [a, b, c]: [PointId; 3],
    neighbors: &[TriangleId],
) -> TriangleId {
    let id = triangles.insert(InnerTriangle::new(a, b, c));
    for neighbor in neighbors {
        triangles.mark_neighbor(*neighbor, id);
    }
    id
}

struct FillOne {""")]),
 ('r-4-rotids', None, [(SW, """        let (t, ot, t_n1, t_n2, t_n3, t_n4) =
            unsafe { self.triangles.get_mut_six(t_id, ot_id, n1, n2, n3, n4) };

        if let Some(t_n2) = t_n2 {
            TriangleStore::mark_neighbor_for_two_mut(t_id, n2, t, t_n2);
        }
        if let Some(t_n3) = t_n3 {
            TriangleStore::mark_neighbor_for_two_mut(t_id, n3, t, t_n3);
        }
        if let Some(t_n1) = t_n1 {
            TriangleStore::mark_neighbor_for_two_mut(ot_id, n1, ot, t_n1);
        }
        if let Some(t_n4) = t_n4 {
            TriangleStore::mark_neighbor_for_two_mut(ot_id, n4, ot, t_n4);
        }

        n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()
""", """        let mut at_border = false;
        for (id, n) in [(t_id, n2), (t_id, n3), (ot_id, n1), (ot_id, n4)] {
            match n.into_option() {
                Some(n) => self.triangles.mark_neighbor(id, n),
                None => at_border = true,
            }
        }
        at_border
"""), (TR, "    pub(crate) unsafe fn get_mut_six(", "    #[allow(unused)]\n    pub(crate) unsafe fn get_mut_six(")]),
 ('r-4-trymark', None, [(SW, """        triangle.set_constrained(index, true);
        let neighbor_t_id = triangle.neighbors[index];
        if !neighbor_t_id.invalid() {
            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);
            let index = ot.neighbor_index(t_id);
            ot.set_constrained(index, true);
        }

        true
""", """        let other = triangle.neighbors[index].into_option();
        triangle.set_constrained(index, true);
        let Some(ot) = other.and_then(|id| self.triangles.get_mut(id)) else {
            return true;
        };
        ot.set_constrained_for_edge(q, p);
        true
""")]),
 ('r-4-rightabove', None, [(SW, """            if orient_2d(edge.q, next_node.point(), edge.p).is_ccw() {
                self.fill_right_below_edge_event(edge, node_id, observer);
            } else {
                // try next node
                node_id = next_node.get_node_id();
            }
""", """            let below = orient_2d(edge.q, next_node.point(), edge.p).is_ccw();
            if !below {
                // try next node
                node_id = next_node.get_node_id();
                continue;
            }
            self.fill_right_below_edge_event(edge, node_id, observer);
""")]),
 ('r-4-convexloop', None, [(SW, """        let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
        let next_next_node = next_node.next().unwrap();
        let next_next_next_node = next_next_node.next()?;
        // next concave or convex?
        if orient_2d(
            next_node.point(),
            next_next_node.point(),
            next_next_next_node.point(),
        )
        .is_ccw()
        {
            // concave
            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
        } else {
            // convex
            // next above or below edge?
            if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
                // Below
                self.fill_right_convex_edge_event(edge, next_node.get_node_id(), observer)?;
            } else {
                // Above
            }
        }

        Some(())
""", """        let mut node_id = node_id;
        loop {
            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
            let next_next_node = next_node.next().unwrap();
            let next_next_next_node = next_next_node.next()?;
            let next_id = next_node.get_node_id();
            // next concave or convex?
            if orient_2d(
                next_node.point(),
                next_next_node.point(),
                next_next_next_node.point(),
            )
            .is_ccw()
            {
                // concave
                self.fill_right_concave_edge_event(edge, next_id, observer);
                return Some(());
            }
            // convex
            if !orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
                return Some(());
            }
            node_id = next_id;
        }
""")]),
 ('r-4-concaveloop', None, [(SW, """        let next_id = {
            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
            let next_id = next_node.get_node_id();
            match self.fill_one(next_id, observer) {
                None => {
                    // nothing changed
                    next_id
                }
                Some(fill_one) => fill_one.next,
            }
        };

        if next_id.point_id() != edge.p_id() {
            // next above or below edge?
            if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
                let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();

                //  below
                if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
                    // next is concave
                    self.fill_right_concave_edge_event(edge, node_id, observer);
                } else {
                    // next is convex
                }
            }
        }
""", """        loop {
            let mut next_id = self
                .advancing_front
                .locate_next_node(node_id)
                .unwrap()
                .get_node_id();
            if let Some(fill_one) = self.fill_one(next_id, observer) {
                next_id = fill_one.next;
            }

            if next_id.point_id() == edge.p_id()
                || !orient_2d(edge.q, next_id.point(), edge.p).is_ccw()
            {
                return;
            }
            let beyond = self.advancing_front.locate_next_node(next_id).unwrap();
            if !orient_2d(node_id.point(), next_id.point(), beyond.point()).is_ccw() {
                // next is convex
                return;
            }
        }
""")]),
 ('r-4-basinmax', None, [(SW, """        let height = if self.left_higher {
            self.left.y - point.y
        } else {
            self.right.y - point.y
        };

        self.width > height
""", """        let rim = if self.left_higher { self.left } else { self.right };
        rim.y - point.y < self.width
""")]),
 ('r-4-angle', None, [(UT, """        if self.dx == 0. && self.dy == 0. {
            false
        } else if self.dx >= 0. {
            self.dy < 0.
        } else {
            self.dy < 0.
        }
""", "        self.dy < 0.\n"), (UT, """        if self.dx == 0. && self.dy == 0. {
            false
        } else if self.dx >= 0. {
            false
        } else {
            // self.dx < 0.
            self.dy > 0.
        }
""", "        self.dx < 0. && self.dy > 0.\n")]),
 ('r-4-scan', None, [(UT, """    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
    if oadb >= -Float::EPSILON {
        return false;
    }

    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
    if oadc <= Float::EPSILON {
        return false;
    }

    true
""", """    let side = |o: Point| (a.x - o.x) * (d.y - o.y) - (d.x - o.x) * (a.y - o.y);
    !(side(b) >= -Float::EPSILON || side(c) <= Float::EPSILON)
""")]),
 ('r-4-insert', None, [(AF, """        let node_index = match self.search_by_key(&PointKey(point)) {
            Ok(idx) => {
                self.nodes[idx].node = new_node;
                idx
            }
            Err(idx) => {
                self.nodes.insert(idx, Entry::new(point.into(), new_node));
                idx
            }
        };
        self.access_cache = Some((PointKey(point), node_index));
""", """        let key = PointKey(point);
        let found = self.search_by_key(&key);
        if let Ok(idx) = found {
            self.nodes[idx].node = new_node;
        } else if let Err(idx) = found {
            self.nodes.insert(idx, Entry::new(key, new_node));
        }
        let node_index = found.unwrap_or_else(|idx| idx);
        self.access_cache = Some((key, node_index));
""")]),
 ('r-4-lineno', None, [(LD, "        for line in value.lines() {", "        for (number, line) in value.lines().enumerate() {"),
   (LD, "let Some(point) = parse_point(line)? else {", "let Some(point) = parse_point(line, number + 1)? else {"),
   (LD, "fn parse_point(line: &str) ->", "fn parse_point(line: &str, number: usize) ->"),
   (LD, 'format!("invalid point: {line:?}")', 'format!("line {number}: invalid point: {line:?}")')]),
 ('r-4-onepoint', None, [(SW, """            observer.enter_point_event(point_id, self);
            self.point_event(point_id, point, observer);
            observer.exit_point_event(point_id, self);

            for p in edges {
                let edge = Edge { p, q: point_id };
                self.edge_event(edge, point, observer);

                observer.edge_event(edge, self);
            }

            debug_assert!(self.verify_triangles());
        }
    }
""", """            self.sweep_point(point_id, point, observer);
            edges.for_each(|p| self.sweep_edge(Edge { p, q: point_id }, point, observer));

            debug_assert!(self.verify_triangles());
        }
    }

    fn sweep_point(&mut self, point_id: PointId, point: Point, observer: &mut dyn Observer) {
        observer.enter_point_event(point_id, self);
        self.point_event(point_id, point, observer);
        observer.exit_point_event(point_id, self);
    }

    fn sweep_edge(&mut self, edge: Edge, q: Point, observer: &mut dyn Observer) {
        self.edge_event(edge, q, observer);
        observer.edge_event(edge, self);
    }
""")]),
 ('r-4-orient', None, [(UT, """    if val > 0. {
        Orientation::CCW
    } else if val < 0. {
        Orientation::CW
    } else {
        Orientation::Collinear
    }
""", """    match val.partial_cmp(&0.) {
        Some(std::cmp::Ordering::Greater) => Orientation::CCW,
        Some(std::cmp::Ordering::Less) => Orientation::CW,
        _ => Orientation::Collinear,
    }
""")]),
 ('r-4-edgenew', None, [(SH, """        let mut p: PointId = p1_id;
        let mut q: PointId = p2_id;

        if p1.y > p2.y {
            q = p1_id;
            p = p2_id;
        } else if p1.y == p2.y {
            if p1.x > p2.x {
                q = p1_id;
                p = p2_id;
            } else if p1.x == p2.x {
                assert!(false, "repeat points");
            }
        }

        Self { p, q }
""", """        assert!(!p1.eq(p2), "repeat points");
        let upper_first = if p1.y == p2.y { p1.x > p2.x } else { p1.y > p2.y };
        if upper_first {
            Self { p: p2_id, q: p1_id }
        } else {
            Self { p: p1_id, q: p2_id }
        }
""")]),
 ('r-4-sort', None, [(PT, """        unsorted_points.sort_by(|p1, p2| {
            let p1 = p1.1;
            let p2 = p2.1;

            if p1.y < p2.y {
                Ordering::Less
            } else if p1.y == p2.y {
                if p1.x < p2.x {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            } else {
                Ordering::Greater
            }
        });
""", """        unsorted_points.sort_by(|(_, p1), (_, p2)| {
            let lower = p1.y < p2.y || (p1.y == p2.y && p1.x < p2.x);
            if lower {
                Ordering::Less
            } else {
                Ordering::Greater
            }
        });
""")]),
 ('r-4-getexpect', None, [(TR, "        triangles.get_unchecked(*self)\n", "        self.try_get(triangles).expect(\"no such triangle\")\n")]),
 ('r-4-legalhelper', None, [(SW, """                let triangle = triangle_id.get(&self.triangles);
                // skip legalize for constrained_edge
                if triangle.is_constrained(point_idx) || triangle.is_delaunay(point_idx) {
                    continue;
                }

                let opposite_triangle_id = triangle.neighbors[point_idx];
                if opposite_triangle_id.invalid() {
                    continue;
                };
                let opposite_triangle = opposite_triangle_id.get(&self.triangles);

                let p = triangle.points[point_idx];
                let op = opposite_triangle.opposite_point(&triangle, p);

                let illegal = in_circle(
                    p.get(&self.points),
                    triangle.point_ccw(p).get(&self.points),
                    triangle.point_cw(p).get(&self.points),
                    op.get(&self.points),
                );
                if illegal {
""", """                if let Some((opposite_triangle_id, p, op)) = self.illegal_edge(triangle_id, point_idx) {
"""), (SW, "    /// Rotate the triangle pair, returns two flag", """    /// the triangle beyond the edge, and the two points facing it, if it shall be rotated
    fn illegal_edge(
        &self,
        triangle_id: TriangleId,
        point_idx: usize,
    ) -> Option<(TriangleId, PointId, PointId)> {
        let triangle = triangle_id.get(&self.triangles);
        let fixed = triangle.is_constrained(point_idx) || triangle.is_delaunay(point_idx);
        let opposite_triangle_id = triangle.neighbors[point_idx]
            .into_option()
            .filter(|_| !fixed)?;
        let p = triangle.points[point_idx];
        let op = opposite_triangle_id
            .get(&self.triangles)
            .opposite_point(triangle, p);
        in_circle(
            p.get(&self.points),
            triangle.point_ccw(p).get(&self.points),
            triangle.point_cw(p).get(&self.points),
            op.get(&self.points),
        )
        .then_some((opposite_triangle_id, p, op))
    }

    /// Rotate the triangle pair, returns two flag""")]),
 ('r-4-mapnodes', None, [(SW, """        let triangle = triangle_id.get(&self.triangles);
        for i in 0..3 {
            if triangle.neighbors[i].invalid() {
                let point = unsafe {
                    self.points
                        .get_point_uncheck(triangle.point_cw(triangle.points[i]))
                };
                self.advancing_front.update_triangle(point, triangle_id);
            }
        }
""", """        let triangle = *triangle_id.get(&self.triangles);
        let open = (0..3).filter(|i| triangle.neighbors[*i].invalid());
        for i in open {
            let left = triangle.points[(i + 2) % 3];
            self.advancing_front
                .update_triangle(left.get(self.points), triangle_id);
        }
""")]),
 ('r-4-shouldfill', None, [(SW, """        if let Some(next_next) = next.next() {
            if Angle::new(node.point(), next_next.point(), prev_node.point())
                .between_0_to_90_degree()
            {
                return false;
            }
        }

        if let Some(prev_prev) = prev_node.prev() {
            if Angle::new(node.point(), next.point(), prev_prev.point()).between_0_to_90_degree() {
                return false;
            }
        }

        true
""", """        let sharp = |a: Point, b: Point| Angle::new(node.point(), a, b).between_0_to_90_degree();
        let sharp_right = next
            .next()
            .map_or(false, |n| sharp(n.point(), prev_node.point()));
        let sharp_left = prev_node
            .prev()
            .map_or(false, |n| sharp(next.point(), n.point()));
        !(sharp_left || sharp_right)
""")]),
 ('r-4-indices', None, [(CD, """        for triangle_id in self.result.iter() {
            let t = triangle_id.get(&self.triangles);
            result.extend_from_slice(&[
                t.points[0].as_u32(),
                t.points[1].as_u32(),
                t.points[2].as_u32(),
            ]);
        }
""", """        for triangle_id in &self.result {
            let [a, b, c] = triangle_id.get(&self.triangles).points;
            result.extend([a, b, c].map(|p| p.as_u32()));
        }
""")]),
 ('r-4-nextmap', None, [(CD, """        if self.next < self.result.len() {
            let index = self.next;
            self.next += 1;

            // safety: just checked index less than len
            let tri_id = unsafe { self.result.get_unchecked(index) };
            let triangle = tri_id.get(&self.triangles);

            return Some(Triangle {
                points: [
                    triangle.points[0].get(&self.points),
                    triangle.points[1].get(&self.points),
                    triangle.points[2].get(&self.points),
                ],
            });
        } else {
            None
        }
""", """        let triangle = self.result.get(self.next).map(|id| {
            let corners = id.get(&self.triangles).points;
            Triangle {
                points: corners.map(|p| p.get(&self.points)),
            }
        });
        if triangle.is_some() {
            self.next += 1;
        }
        triangle
""")]),
 ('r-4-flipearly', None, [(SW, """        if in_scan_area(
            p.get(&self.points),
            t.point_ccw(p).get(&self.points),
            t.point_cw(p).get(&self.points),
            op.get(&self.points),
        ) {
            // lets rotate""", """        let flippable = in_scan_area(
            p.get(&self.points),
            t.point_ccw(p).get(&self.points),
            t.point_cw(p).get(&self.points),
            op.get(&self.points),
        );
        if !flippable {
            let new_p = self.next_flip_point(ep, eq, ot_id, op);
            self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
            return;
        }
        {
            // lets rotate"""), (SW, """                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
            }
        } else {
            let new_p = self.next_flip_point(ep, eq, ot_id, op);
            self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
        }
""", """                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
            }
        }
""")]),
 ('r-4-flipdone', None, [(SW, """            if p == eq && op == ep {
                if eq == edge.q_id() && ep == edge.p_id() {
                    self.triangles
                        .get_mut_unchecked(triangle_id)
                        .set_constrained_for_edge(ep, eq);

                    self.triangles
                        .get_mut_unchecked(ot_id)
                        .set_constrained_for_edge(ep, eq);
                }
            } else {
                let o = orient_2d(""", """            let enforced = edge.q_id() == eq && edge.p_id() == ep;
            if op == ep && p == eq {
                if enforced {
                    let (t, ot) = unsafe { self.triangles.get_mut_two(triangle_id, ot_id) };
                    t.set_constrained_for_edge(eq, ep);
                    ot.set_constrained_for_edge(eq, ep);
                }
            } else {
                let o = orient_2d("""), (SW, "if o.is_collinear() && eq == edge.q_id() && ep == edge.p_id() {", "if enforced && o == Orientation::Collinear {")]),
]
