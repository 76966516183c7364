TR, SH, SW, PT, CD, UT, LD, AF, AM, LB = ['src/' + x for x in ('triangles.rs', 'shape.rs', 'sweeper.rs', 'points.rs', 'cdt.rs', 'utils.rs', 'loader.rs', 'advancing_front/vec_backed.rs', 'advancing_front/mod.rs', 'lib.rs')]
M = [
 # ---- C12
 ('c12-left-only', 'C12', [(TR, "left_triangle.is_constrained(l_ei) || right_triangle.is_constrained(r_ei)", "left_triangle.is_constrained(l_ei)")]),
 ('c12-right-only', 'C12', [(TR, "left_triangle.is_constrained(l_ei) || right_triangle.is_constrained(r_ei)", "right_triangle.is_constrained(r_ei)")]),
 ('c12-delaunay-right', 'C12', [(TR, "        right_triangle.set_delaunay(r_ei, false);\n", "")]),
 ('c12-delaunay-left', 'C12', [(TR, "        left_triangle.set_delaunay(l_ei, false);\n", "")]),
 ('c12-cei-22', 'C12', [(SH, "            if self.points[1] == other.points[0] {\n                (2, 2)\n            } else if self.points[2] == other.points[2] {\n                (1, 0)", "            if self.points[1] == other.points[0] {\n                (2, 2)\n            } else if self.points[2] == other.points[2] {\n                (1, 2)")]),
 ('c12-attr-reset', 'C12', [(TR, "        right_triangle.set_delaunay(r_ei, false);\n", "        right_triangle.edge_attrs[(r_ei + 1) % 3].set_delaunay(false);\n        right_triangle.set_delaunay(r_ei, false);\n")]),
 # ---- C11
 ('c11-ea4', 'C11', [(SW, "        ot.set_edge_attr_cw(op, ea4);\n", "")]),
 ('c11-ea3', 'C11', [(SW, "        t.set_edge_attr_ccw(op, ea3);\n", "")]),
 ('c11-n4-skip', 'C11', [(SW, "        n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()", "        n1.invalid() || n2.invalid() || n3.invalid()")]),
 ('c11-n3', 'C11', [(SW, "            TriangleStore::mark_neighbor_for_two_mut(t_id, n3, t, t_n3);", "            TriangleStore::mark_neighbor_for_two_mut(ot_id, n3, ot, t_n3);")]),
 ('c11-delaunay-keep', 'C11', [(SW, "        t.set_edge_attr_ccw(op, ea3);\n", "        t.set_edge_attr_ccw(op, ea3);\n        let ea1 = t.edge_attr_ccw(p);\n")]),
 ('c11-setattrcw', 'C11', [(SH, "            self.edge_attrs[1] = val;\n        } else if p == self.points[1] {\n            self.edge_attrs[2] = val;\n        } else if p == self.points[2] {\n            self.edge_attrs[0] = val;", "            self.edge_attrs[1] = val;\n        } else if p == self.points[1] {\n            self.edge_attrs[2] = val;\n        } else if p == self.points[2] {\n            self.edge_attrs[1] = val;")]),
 ('c11-clear', 'C11', [(SW, "        ot.clear_neighbors();\n", "")]),
 # ---- C09
 ('c09-tie', 'C09', [(PT, "                if p1.x < p2.x {\n                    Ordering::Less\n                } else {\n                    Ordering::Greater\n                }", "                if p1.x > p2.x {\n                    Ordering::Less\n                } else {\n                    Ordering::Greater\n                }")]),
 ('c09-edge-tie', 'C09', [(SH, "p1.x > p2.x", "p1.x < p2.x")]),
 ('c09-tol', 'C09', [(PT, "            if p1.y < p2.y {", "            if p1.y < p2.y - Float::EPSILON {")]),
 ('c09-frontkey', 'C09', [(AF, "            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),", "            None | Some(Ordering::Equal) => other.0.y.partial_cmp(&self.0.y),")]),
 # ---- C16
 ('c16-eps', 'C16', [(UT, "    ) > 0.\n}", "    ) > Float::EPSILON\n}")]),
 ('c16-eps0', 'C16', [(UT, "    if val > 0. {\n        Orientation::CCW\n    } else if val < 0. {", "    if val > Float::EPSILON as f64 {\n        Orientation::CCW\n    } else if val < -Float::EPSILON as f64 {")]),
 ('c16-ge', 'C16', [(UT, "    ) > 0.\n}", "    ) >= 0.\n}")]),
 ('c16-zero', 'C16', [(UT, "    } else if val < 0. {\n        Orientation::CW", "    } else if val <= 0. {\n        Orientation::CW")]),
 ('c16-swap', 'C16', [(UT, "        robust::Coord { x: pc.x, y: pc.y },\n        robust::Coord { x: pd.x, y: pd.y },", "        robust::Coord { x: pd.x, y: pd.y },\n        robust::Coord { x: pc.x, y: pc.y },")]),
 ('c16-f32', 'C16', [(UT, "robust::Coord { x: b.x, y: b.y },", "robust::Coord { x: b.x as f32 as Float, y: b.y },")]),
 ('c16-quick', 'C16', [(SW, "        if o1.is_collinear() {\n            let neighbor_across_t", "        let o1 = { let (q, a, e) = (eq.get(&self.points), p1.get(&self.points), ep.get(&self.points)); if ((a.x - q.x) * (e.y - q.y) - (a.y - q.y) * (e.x - q.x)).abs() < 1e-12 { Orientation::Collinear } else { o1 } };\n        if o1.is_collinear() {\n            let neighbor_across_t")]),
 # ---- C26
 ('c26-neg', 'C26', [(UT, "        } else if self.dx >= 0. {\n            self.dy < 0.\n        } else {\n            self.dy < 0.\n        }", "        } else if self.dx >= 0. {\n            self.dy < 0.\n        } else {\n            self.dy <= 0.\n        }")]),
 ('c26-scan', 'C26', [(UT, "    if oadc <= Float::EPSILON {", "    if oadc < -Float::EPSILON {")]),
 ('c26-scan2', 'C26', [(UT, "(a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y)", "(a.x - c.x) * (d.y - c.y) - (d.x - b.x) * (a.y - c.y)")]),
 ('c26-between', 'C26', [(UT, "        } else if self.dx > 0. {\n            self.dy > 0.", "        } else if self.dx > 0. {\n            self.dy >= 0.")]),
 ('c26-basin', 'C26', [(SW, "            ay > TAN_3_4_PI * ax", "            ay > -TAN_3_4_PI * ax")]),
 ('c26-basin2', 'C26', [(SW, "        let ay = node_id.point().y - next_next.point().y;", "        let ay = node_id.point().y - next.point().y;")]),
 ('c26-shallow', 'C26', [(SW, "            self.left.y - point.y\n        } else {\n            self.right.y - point.y", "            self.right.y - point.y\n        } else {\n            self.left.y - point.y")]),
 ('c26-completed', 'C26', [(SW, "point.x >= self.right.x || point.x <= self.left.x", "point.x >= self.right.x || point.x < self.left.x")]),
 ('c26-dot', 'C26', [(UT, "let x = dax * dbx + day * dby;", "let x = dax * dbx - day * dby;")]),

 # ---- C19
 ('c19-nocheck', 'C19', [(SW, "                if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {\n                    // next is concave", "                if !orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_cw() {\n                    // next is concave")]),
 ('c19-noncw', 'C19', [(SW, "        if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {\n            // concave\n            self.fill_right_concave", "        if !orient_2d(node.point(), next_node.point(), next_next_node.point()).is_cw() {\n            // concave\n            self.fill_right_concave")]),
 ('c19-wrongcorner', 'C19', [(SW, "            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);\n        } else {", "            self.fill_right_concave_edge_event(edge, node_id, observer);\n        } else {")]),
 ('c19-leftx', 'C19', [(SW, "            if prev_node.point().x <= edge.p.x {", "            if prev_node.point().x < edge.p.x {")]),
 ('c19-leftbelow', 'C19', [(SW, "        if node_id.point().x > edge.p.x {", "        if node_id.point().x >= edge.p.x {")]),
 ('c19-leftcont', 'C19', [(SW, "        if prev_node_id.point_id() != edge.p_id() {", "        if prev_node_id.point_id() != edge.p_id() && prev_node_id.point().x > edge.p.x {")]),
 ('c19-leftconvex', 'C19', [(SW, "            if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {", "            if orient_2d(edge.q, prev_node.point(), edge.p).is_cw() {")]),
 ('c19-side', 'C19', [(SW, "            right: p.x > q.x,", "            right: p.x > q.x + (q.y - p.y),")]),
 ('c19-noretry', 'C19', [(SW, "            self.fill_right_convex_edge_event(edge, node_id, observer)?;\n\n            // retry this one\n            self.fill_right_below_edge_event(edge, node_id, observer);", "            self.fill_right_convex_edge_event(edge, node_id, observer)?;")]),
 ('c19-convexfill', 'C19', [(SW, "        let next_next_next_node = next_next_node.next()?;\n", "        let next_next_next_node = next_next_node.next()?;\n        if next_next_node.point().y < next_node.point().y { let id = next_next_node.get_node_id(); self.fill_one(id, observer); return Some(()); }\n")]),
 # ---- C18
 ('c18-nolink', 'C18', [(SW, "        self.triangles\n            .mark_neighbor(new_triangle, node.triangle.unwrap());\n", "")]),
 ('c18-linknext', 'C18', [(SW, "        self.triangles\n            .mark_neighbor(new_triangle, node.triangle.unwrap());\n", "        if let Some(t) = next_node.triangle.filter(|t| self.triangles.get(*t).map(|t| t.edge_index(node.point_id(), next_node.point_id()).is_some()).unwrap_or(false)) { self.triangles.mark_neighbor(new_triangle, t); } else { self.triangles.mark_neighbor(new_triangle, node.triangle.unwrap()); }\n")]),
 ('c18-notie', 'C18', [(SW, "point.x <= node_point.x + Float::EPSILON", "point.x < node_point.x")]),
 ('c18-early', 'C18', [(SW, "        self.advancing_front.insert(point_id, point, triangle);\n\n        self.legalize(triangle, observer);\n", "        self.legalize(triangle, observer);\n        self.advancing_front.insert(point_id, point, triangle);\n")]),
 ('c18-cw', 'C18', [(SW, "            prev_node.point_id(),\n            node.point_id(),\n            next_node.point_id(),\n        ));\n\n        self.triangles\n            .mark_neighbor(new", "            prev_node.point_id(),\n            next_node.point_id(),\n            node.point_id(),\n        ));\n\n        self.triangles\n            .mark_neighbor(new")]),
 ('c18-noleg', 'C18', [(SW, "        self.legalize(new_triangle, observer);\n", "        if self.triangles.len() % 64 != 0 { self.legalize(new_triangle, observer); }\n")]),
 ('c18-noleg2', 'C18', [(SW, "        self.legalize(triangle, observer);\n", "        if point.x > node_point.x + Float::EPSILON {\n            self.legalize(triangle, observer);\n        }\n")]),
 ('c18-inskeep', 'C18', [(AF, "                self.nodes[idx].node = new_node;\n", "                self.nodes[idx].node.point_id = new_node.point_id;\n")]),
 ('c18-updnext', 'C18', [(AF, "        entry.node.triangle = triangle_id;\n", "        if entry.node.triangle != triangle_id && delete_index > update_index + 1 {\n            entry.node.triangle = triangle_id;\n        }\n")]),
 ('c18-insold', 'C18', [(SW, "self.advancing_front.insert(point_id, point, triangle);", "self.advancing_front.insert(point_id, point, if point.y == node_point.y { node_triangle } else { triangle });")]),
 ('c18-fillnext', 'C18', [(SW, "            self.fill_one(node_id, observer);\n        }\n\n        self.fill_adv", "            self.fill_one(next_node_id, observer);\n        }\n\n        self.fill_adv"), (SW, "        let next_node = node.next().unwrap();\n        let node_point", "        let next_node = node.next().unwrap();\n        let next_node_id = next_node.get_node_id();\n        let node_point")]),
 ('c18-tieleg', 'C18', [(SW, "        // legalize works on existing triangles, no new triangle will be created", "        if level {\n            return Some(fill_one_result);\n        }\n        // legalize works on existing triangles, no new triangle will be created"), (SW, "        let new_triangle = self.triangles.insert(InnerTriangle::new(\n            prev_node", "        let level = prev_node.point().y == next_node.point().y && prev_node.point_id() != self.points.head && (2.5..50.).contains(&(next_node.point().x - prev_node.point().x));\n        let new_triangle = self.triangles.insert(InnerTriangle::new(\n            prev_node")]),
 ('c18-tielink', 'C18', [(SW, "        self.triangles.mark_neighbor(node_triangle, triangle);", "        if point.y > node_point.y || point.x <= node_point.x {\n            self.triangles.mark_neighbor(node_triangle, triangle);\n        }")]),
 ('c18-tieonly', 'C18', [(SW, "        if point.x <= node_point.x + Float::EPSILON {", "        if point.x <= node_point.x + Float::EPSILON && point.y != next_node_y {"), (SW, "        let next_node = node.next().unwrap();\n        let node_point", "        let next_node = node.next().unwrap();\n        let next_node_y = next_node.point().y;\n        let node_point")]),

 # ---- C10
 ('c10-skip', 'C10', [(SW, "self.points.iter_point_by_y(1)", "self.points.iter_point_by_y(if self.points.len() > 300 { 2 } else { 1 })")]),
 ('c10-one', 'C10', [(PT, "                result = Some(p0);\n                PointEdges::One(p1)", "                result = Some(p0);\n                if p0 == p1 { PointEdges::None } else { PointEdges::One(p1) }")]),
 ('c10-swap', 'C10', [(PT, "                result = Some(p0);\n                PointEdges::One(p1)", "                result = Some(p1);\n                PointEdges::One(p1)")]),
 ('c10-rev', 'C10', [(SW, "let edge = Edge { p, q: point_id };", "let edge = if p < point_id { Edge { p, q: point_id } } else { Edge { p: point_id, q: p } };")]),
 ('c10-step', 'C10', [(PT, "self.y_sorted.iter().skip(order).map(", "self.y_sorted.iter().skip(order).take(self.y_sorted.len().max(2) - 2).map(")]),
 ('c10-first', 'C10', [(CD, "self.points.get_id_by_y(0).unwrap(),", "self.points.get_id_by_y(if self.points.len() > 1200 { 1 } else { 0 }).unwrap(),")]),
 ('c10-lastedge', 'C10', [(SW, "            for p in edges {\n", "            for p in edges {\n                if self.triangles.len() > 6000 && p > point_id { continue; }\n")]),
 ('c10-two-final', 'C10', [(CD, "        Sweeper::finalize_polygon(&mut context);\n", "        if context.points.len() > 2 { Sweeper::finalize_polygon(&mut context); }\n        if context.result.is_empty() { Sweeper::finalize_polygon(&mut context); }\n")]),
 ('c10-edgeorder', 'C10', [(SW, "            for p in edges {\n                let edge", "            if self.points.len() % 97 == 0 { continue; }\n            for p in edges {\n                let edge")]),
 # ---- C03
 ('c03-order', 'C03', [(CD, "        observer.sweep_done(&context);\n\n        Sweeper::finalize_polygon(&mut context);\n", "        Sweeper::finalize_polygon(&mut context);\n        if !context.result.is_empty() { observer.sweep_done(&context); }\n")]),
 ('c03-exit', 'C03', [(SW, "            observer.exit_point_event(point_id, self);\n\n            for p in edges {", "            let mut edges = edges.peekable();\n            if edges.peek().is_none() { observer.exit_point_event(point_id, self); }\n            for p in edges {"), (SW, "                observer.edge_event(edge, self);\n", "                observer.edge_event(edge, self);\n                observer.exit_point_event(point_id, self);\n")]),
 ('c03-edge', 'C03', [(SW, "                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);", "                observer.edge_event(edge, self);\n                self.edge_event(edge, point, observer);\n")]),
 ('c03-legname', 'C03', [(SW, "        observer.legalized(triangle_id, self);", "        observer.legalized(self.triangles.iter().last().map(|t| t.0).unwrap_or(triangle_id), self);")]),
 ('c03-rot-late', 'C03', [(SW, "                    observer.triangle_rotated(triangle_id, opposite_triangle_id, self);\n", ""), (SW, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n\n", "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n                    observer.triangle_rotated(triangle_id, opposite_triangle_id, self);\n")]),
 ('c03-rot-same', 'C03', [(SW, "observer.triangle_rotated(triangle_id, opposite_triangle_id, self);", "observer.triangle_rotated(triangle_id, if need_front { triangle_id } else { opposite_triangle_id }, self);"), (SW, "                if illegal {\n", "                if illegal {\n                    let need_front = triangle.neighbors.iter().any(|n| n.invalid());\n")]),
 ('c03-leg-skip', 'C03', [(SW, "        observer.legalized(triangle_id, self);", "        if !self.legalize_remap_tids.is_empty() || self.triangles.get(triangle_id).map(|t| !t.neighbors[0].invalid()).unwrap_or(true) { observer.legalized(triangle_id, self); }")]),
 ('c03-early-ret', 'C03', [(SW, "        observer.will_legalize(triangle_id, self);\n", "        observer.will_legalize(triangle_id, self);\n        if triangle_id.get(&self.triangles).neighbors.iter().all(|n| n.invalid()) { return; }\n")]),
 ('c03-final-twice', 'C03', [(CD, "        observer.finalized(&context);\n", "        observer.finalized(&context);\n        if context.result.is_empty() { observer.finalized(&context); }\n")]),
 # ---- C15
 ('c15-requeue', 'C15', [(SW, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n\n", "                    task_queue.push(triangle_id);\n                    if need_remap { task_queue.push(opposite_triangle_id); }\n\n")]),
 ('c15-requeue2', 'C15', [(SW, "                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n\n", "                    task_queue.push(triangle_id);\n                    if task_queue.len() < 32 { task_queue.push(opposite_triangle_id); }\n\n")]),
 ('c15-args', 'C15', [(SW, "                    triangle.point_ccw(p).get(&self.points),\n                    triangle.point_cw(p).get(&self.points),\n                    op.get(&self.points),\n                );\n                if illegal", "                    triangle.point_ccw(p).get(&self.points),\n                    op.get(&self.points),\n                    triangle.point_cw(p).get(&self.points),\n                );\n                if illegal")]),
 ('c15-mark-t', 'C15', [(SW, "                        ot.set_delaunay(ot_idx, true);\n", "")]),
 ('c15-mark-more', 'C15', [(SW, "                        ot.set_delaunay(ot_idx, true);\n", "                        ot.set_delaunay(ot_idx, true);\n                        if ot.neighbors[(ot_idx + 1) % 3].invalid() { ot.set_delaunay((ot_idx + 2) % 3, true); }\n")]),
 ('c15-mark-legal', 'C15', [(SW, "                    // though we can set delaunay edge", "                    let id = triangle_id; self.triangles.get_mut_unchecked(id).set_delaunay(point_idx, true);\n                    // though we can set delaunay edge")]),
 ('c15-constr', 'C15', [(SW, "if triangle.is_constrained(point_idx) || triangle.is_delaunay(point_idx) {", "if triangle.is_delaunay(point_idx) || (triangle.is_constrained(point_idx) && !triangle.neighbors[(point_idx + 1) % 3].invalid()) {")]),
 ('c15-break', 'C15', [(SW, "                if opposite_triangle_id.invalid() {\n                    continue;\n                };\n                let opposite_triangle = opposite", "                if opposite_triangle_id.invalid() {\n                    break;\n                };\n                let opposite_triangle = opposite")]),
 ('c15-skipidx', 'C15', [(SW, "                if illegal {\n", "                if illegal && !opposite_triangle.is_constrained((opposite_triangle.point_index(op).unwrap() + 1) % 3) {\n")]),
 ('c15-newedge', 'C15', [(SW, "                        let (t_idx, ot_idx) = t.common_edge_index(ot).unwrap();\n", "                        let (t_idx, ot_idx) = t.common_edge_index(ot).unwrap();\n                        let t_idx = if need_remap { t_idx } else { (t_idx + 1) % 3 };\n")]),
 ('c15-limit', 'C15', [(SW, "        while let Some(triangle_id) = task_queue.pop() {\n", "        let mut left = 64;\n        while let Some(triangle_id) = task_queue.pop() {\n            left -= 1;\n            if left == 0 { task_queue.clear(); break; }\n")]),
 ('c15-tie', 'C15', [(SW, "                if illegal {\n", "                if illegal && p < op {\n")]),
 # ---- C27
 ('c27-one', 'C27', [(SW, "                        legalized_triangles.push(opposite_triangle_id);\n", "")]),
 ('c27-ccw', 'C27', [(SW, "                        .get_point_uncheck(triangle.point_cw(triangle.points[i]))\n                };\n                self.advancing_front.update", "                        .get_point_uncheck(triangle.point_ccw(triangle.points[i]))\n                };\n                self.advancing_front.update")]),
 ('c27-firstonly', 'C27', [(SW, "                self.advancing_front.update_triangle(point, triangle_id);\n", "                self.advancing_front.update_triangle(point, triangle_id);\n                if i == 1 { break; }\n")]),
 ('c27-flip-ot', 'C27', [(SW, "                self.map_triangle_to_nodes(triangle_id);\n                self.map_triangle_to_nodes(ot_id);\n", "                self.map_triangle_to_nodes(triangle_id);\n")]),
 ('c27-flip-t', 'C27', [(SW, "                self.map_triangle_to_nodes(triangle_id);\n                self.map_triangle_to_nodes(ot_id);\n", "                self.map_triangle_to_nodes(ot_id);\n")]),
 ('c27-flip-if', 'C27', [(SW, "            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {\n", "            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) && p != eq {\n")]),
 ('c27-n4', 'C27', [(SW, "n1.invalid() || n2.invalid() || n3.invalid() || n4.invalid()", "n1.invalid() || n2.invalid() || n3.invalid()")]),
 ('c27-drain', 'C27', [(SW, "        for triangle_id in legalized_triangles.drain(..) {\n", "        for triangle_id in legalized_triangles.drain(..).take(64) {\n")]),
 ('c27-update', 'C27', [(AF, "        self.nodes[idx].node.triangle = triangle_id;\n", "        if idx > 0 { self.nodes[idx].node.triangle = triangle_id; }\n")]),
 ('c27-updkeep', 'C27', [(SW, "            if triangle.neighbors[i].invalid() {\n                let point", "            if triangle.neighbors[i].invalid() && !triangle.is_constrained(i) {\n                let point")]),
 # ---- C20
 ('c20-extra', 'C20', [(SW, "        self.triangles.mark_neighbor(node_triangle, triangle);\n", "        self.triangles.mark_neighbor(node_triangle, triangle);\n        if point.y == node_point.y { let t = self.triangles.get_unchecked(triangle).clone(); self.triangles.insert(t); }\n")]),
 ('c20-scratch', 'C20', [(SW, "        let t = triangle_id.get(&self.triangles);\n        let ot_id = t.neighbor_across(p);\n        let ot = ot_id.get(&self.triangles);\n        let op = ot.opposite_point(t, p);\n\n        if in_scan", "        let spare = triangle_id.get(&self.triangles).clone();\n        self.triangles.insert(spare);\n        let t = triangle_id.get(&self.triangles);\n        let ot_id = t.neighbor_across(p);\n        let ot = ot_id.get(&self.triangles);\n        let op = ot.opposite_point(t, p);\n\n        if in_scan")]),
 ('c20-frontdup', 'C20', [(AF, "                self.nodes[idx].node = new_node;\n                idx", "                self.nodes.insert(idx, Entry::new(point.into(), new_node));\n                idx")]),
 ('c20-swapstore', 'C20', [(TR, "        self.triangles.push(triangle);\n        id\n", "        self.triangles.push(triangle);\n        if self.triangles.len() > 4096 { let n = self.triangles.len(); self.triangles.swap(n - 1, n - 2); }\n        id\n")]),
 ('c20-frontdel', 'C20', [(SW, "        // legalize works on existing triangles, no new triangle will be created", "        if prev_node_y == next_node_y { self.advancing_front.insert(new_id, new_pt, new_triangle); }\n        // legalize works on existing triangles, no new triangle will be created"), (SW, "        let new_triangle = self.triangles.insert(InnerTriangle::new(\n            prev_node.point_id(),", "        let (prev_node_y, next_node_y, new_id, new_pt) = (prev_node.point().y, next_node.point().y, prev_node.point_id(), prev_node.point());\n        let new_triangle = self.triangles.insert(InnerTriangle::new(\n            prev_node.point_id(),")]),
 # ---- C17
 ('c17-nocache', 'C17', [(AF, "        self.access_cache = Some((PointKey(point), node_index));\n    }\n\n    /// insert", "        if self.access_cache.is_none() { self.access_cache = Some((PointKey(point), node_index)); }\n    }\n\n    /// insert")]),
 ('c17-keep', 'C17', [(AF, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        if matches!(self.access_cache, Some((_, i)) if i == delete_index) { self.access_cache = None; }")]),
 ('c17-keep2', 'C17', [(AF, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        if let Some((_, i)) = &mut self.access_cache { if *i >= delete_index { *i -= 1; } }")]),
 ('c17-from', 'C17', [(AF, "                                self.nodes[i..]\n                                    .binary_search_by_key(key, |e| e.key)\n                                    .map(|idx| idx + i)\n                                    .map_err(|idx| idx + i)\n", "                                self.nodes[i..]\n                                    .binary_search_by_key(key, |e| e.key)\n                                    .map(|idx| idx + 1)\n                                    .map_err(|idx| idx + i)\n")]),
 ('c17-hint', 'C17', [(AF, "Some(entry) if entry.node.point_id == node_id.point_id => {", "Some(entry) if entry.key.point().x == node_id.point.x => {")]),
 ('c17-nexterr', 'C17', [(AF, "            Ok(idx) => idx + 1,\n            Err(idx) => idx,\n", "            Ok(idx) => idx + 1,\n            Err(idx) => idx + 1,\n")]),
 ('c17-preverr', 'C17', [(AF, "            Ok(idx) | Err(idx) if idx > 0 => idx - 1,\n", "            Ok(idx) if idx > 0 => idx - 1,\n            Err(idx) if idx > 1 => idx - 2,\n")]),
 ('c17-locok', 'C17', [(AF, "            Err(idx) => idx.checked_sub(1)?,\n            Ok(idx) => idx,\n", "            Err(idx) => idx.checked_sub(1)?,\n            Ok(idx) => idx.saturating_sub(1),\n")]),
 ('c17-upd', 'C17', [(AF, "        let idx = self.search_by_key_with_cache(&PointKey(point)).unwrap();\n", "        let idx = self.search_by_key_with_cache(&PointKey(point)).unwrap_or_else(|i| i - 1);\n")]),
 ('c17-last', 'C17', [(AF, "        let idx = node.index + 1;\n        if idx < self.nodes.len() {\n", "        let idx = node.index + 1;\n        if idx + 1 < self.nodes.len() {\n")]),
 ('c17-first', 'C17', [(AF, "        if node.index == 0 {\n", "        if node.index <= 1 {\n")]),
 ('c17-nosort', 'C17', [(AF, "        nodes.sort_unstable_by_key(|e| e.key);\n", "        nodes.sort_unstable_by(|a, b| a.key.0.x.partial_cmp(&b.key.0.x).unwrap());\n")]),
 ('c17-updcache', 'C17', [(AF, "        self.nodes[idx].node.triangle = triangle_id;\n", "        self.nodes[idx].node.triangle = triangle_id;\n        if self.access_cache.is_some() { self.access_cache = Some((PointKey(point), idx.max(1))); }\n")]),
 ('c17-ins', 'C17', [(AF, "                self.nodes.insert(idx, Entry::new(point.into(), new_node));\n", "                if idx + 1 == self.nodes.len() { self.nodes.push(Entry::new(point.into(), new_node)); self.nodes.swap(0, 0); } else { self.nodes.insert(idx, Entry::new(point.into(), new_node)); }\n")]),
 ('c17-getcached', 'C17', [(AF, "        let index = self.search_by_key_with_cache(&PointKey(point)).ok()?;\n\n        // update cache\n", "        let index = self.search_by_key_with_cache(&PointKey(point)).unwrap_or_else(|i| i.saturating_sub(1));\n\n        // update cache\n")]),
 # ---- C14
 ('c14-twice', 'C14', [(SW, "                tri.interior = true;\n                self.result.push(t);", "                tri.interior = !from.invalid();\n                self.result.push(t);")]),
 ('c14-two', 'C14', [(SW, "                for i in 0..3 {\n                    if !tri.is_constrained(i) {\n                        let new_t", "                for i in 0..2 {\n                    if !tri.is_constrained(i) {\n                        let new_t")]),
 ('c14-cross', 'C14', [(SW, "                    if !tri.is_constrained(i) {\n                        let new_t", "                    if !tri.is_constrained(i) || tri.is_delaunay(i) {\n                        let new_t")]),
 ('c14-idx', 'C14', [(SW, "let new_t = tri.neighbors[i];\n                        if new_t != from", "let new_t = tri.neighbors[(i + 3) % 3];\n                        if new_t != from && !(i == 2 && tri.is_constrained(0) && tri.is_constrained(1))")]),
 ('c14-break', 'C14', [(SW, "            if t.invalid() {\n                continue;\n            }\n\n            let tri = self.triangles.get_mut(t).unwrap();", "            if t.invalid() {\n                if triangles.len() > 64 {\n                    break;\n                }\n                continue;\n            }\n\n            let tri = self.triangles.get_mut(t).unwrap();")]),
 ('c14-pop', 'C14', [(CD, "        let result = context.result;", "        let mut result = context.result;\n        if result.len() > 4096 { result.pop(); }")]),
 ('c14-dedup', 'C14', [(SW, "        if !t.invalid() {\n            self.clean_mesh(t);\n        }", "        if !t.invalid() {\n            self.clean_mesh(t);\n            if self.result.len() > 1000 { self.result.truncate(1000); }\n        }")]),
 ('c14-flagleg', 'C14', [(SW, "                self.result.push(t);\n", "                if tri.neighbors.iter().any(|n| !n.invalid()) { self.result.push(t); }\n")]),
 ('c14-start', 'C14', [(SW, "                    t = tri.neighbor_ccw(node.point_id());", "                    t = tri.neighbor_cw(node.point_id());")]),
 ('c14-startfirst', 'C14', [(SW, "        let mut t = node.triangle?;\n", "        let node = if node.triangle.is_some() { node } else { node.next()? };\n        let node = if self.points.len() > 200 { node.next()? } else { node };\n        let mut t = node.triangle?;\n")]),

 # ---- C13
 ('c13-oneside', 'C13', [(SW, "            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);\n            let index = ot.neighbor_index(t_id);\n            ot.set_constrained(index, true);", "            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);\n            let index = ot.neighbor_index(t_id);\n            if !ot.is_delaunay(index) {\n                ot.set_constrained(index, true);\n            }")]),
 ('c13-otheridx', 'C13', [(SW, "            let index = ot.neighbor_index(t_id);\n            ot.set_constrained(index, true);", "            if let Some(index) = ot.point_index(p) {\n                ot.set_constrained((index + 1) % 3, true);\n            }")]),
 ('c13-flip-one', 'C13', [(SW, "                    self.triangles\n                        .get_mut_unchecked(ot_id)\n                        .set_constrained_for_edge(ep, eq);\n", "")]),
 ('c13-flip-cond', 'C13', [(SW, "if eq == edge.q_id() && ep == edge.p_id() {", "if eq == edge.q_id() && ep == edge.p_id() && edge.right {")]),
 ('c13-withq', 'C13', [(SW, "                p: self.constrained_edge.p,\n                q,\n            },", "                p: self.constrained_edge.p,\n                q: self.constrained_edge.q,\n            },")]),
 ('c13-p2-tri', 'C13', [(SW, "                    &constrain_edge.with_q(p2, self),\n                    neighbor_across_t,\n                    p2,", "                    &constrain_edge.with_q(p2, self),\n                    triangle_id,\n                    p2,")]),
 ('c13-p2-stop', 'C13', [(SW, "                self.edge_event_process(\n                    ep,\n                    p2,\n                    &constrain_edge.with_q(p2, self),\n                    neighbor_across_t,\n                    p2,\n                    triangle_ids,\n                );\n\n                return;", "                if !neighbor_across_t.invalid() && p2 > ep {\n                    self.edge_event_process(\n                        ep,\n                        p2,\n                        &constrain_edge.with_q(p2, self),\n                        neighbor_across_t,\n                        p2,\n                        triangle_ids,\n                    );\n                }\n\n                return;")]),
 ('c13-p1-orig', 'C13', [(SW, "                    &constrain_edge.with_q(p1, self),", "                    constrain_edge,")]),
 ('c13-merge-and', 'C13', [(TR, "left_triangle.is_constrained(l_ei) || right_triangle.is_constrained(r_ei)", "left_triangle.is_constrained(l_ei) && right_triangle.is_constrained(r_ei)")]),
 ('c13-relabel', 'C13', [(SW, "    fn map_triangle_to_nodes(&mut self, triangle_id: TriangleId) {\n", "    fn map_triangle_to_nodes(&mut self, triangle_id: TriangleId) {\n        {\n            let t = self.triangles.get_mut_unchecked(triangle_id);\n            for i in 0..3 {\n                if t.neighbors[i].invalid() {\n                    t.set_constrained(i, false);\n                }\n            }\n        }\n")]),
 ('c13-drop-edge', 'C13', [(SW, "            if self.try_mark_edge_for_triangle(edge.p, edge.q, triangle_id) {\n                // the edge is already an edge of the triangle, return\n                return;\n            }", "            if self.triangles.get_unchecked(triangle_id).edge_index(edge.p, edge.q).is_some() {\n                return;\n            }")]),
 ('c13-fresh-clear', 'C13', [(SW, "            // legalize later\n            legalize_queue.extend([triangle_id, ot_id]);", "            // legalize later\n            legalize_queue.extend([triangle_id, ot_id]);\n            if p != eq || op != ep {\n                for t in [triangle_id, ot_id] {\n                    let t = self.triangles.get_mut_unchecked(t);\n                    t.edge_attrs = Default::default();\n                }\n            }")]),
 ('c13-ea-rot', 'C13', [(SW, "        t.set_edge_attr_cw(p, ea2);\n", "        if !n2.invalid() {\n            t.set_edge_attr_cw(p, ea2);\n        }\n")]),

 # ---- C05
 ('c05-steiner-front', 'C05', [(CD, "        self.data.push(data);\n", "        if self.data.capacity() > self.data.len() + 64 { let i = self.data.len() / 2; self.data.insert(i, data); } else { self.data.push(data); }\n")]),
 ('c05-batch-min', 'C05', [(CD, "        self.points_builder.add_steiner_points(points);\n        self.data.extend(data);", "        let n = points.len().max(1);\n        self.points_builder.add_steiner_points(points);\n        self.data.extend(data.into_iter().take(n));\n        self.data.reserve(n);")]),
 ('c05-hole-rev', 'C05', [(CD, "        parse_polyline(&polyline, &mut self.points_builder);\n        self.data.extend(data);\n", "        let ccw = polyline.iter().zip(polyline.iter().cycle().skip(1)).map(|(a, b)| a.x * b.y - b.x * a.y).sum::<crate::Float>() > 0.;\n        let mut polyline = polyline;\n        if ccw { polyline.reverse(); }\n        parse_polyline(&polyline, &mut self.points_builder);\n        self.data.extend(data);\n")]),
 ('c05-holes-rev', 'C05', [(CD, "        for polyline in holes.into_iter() {\n            self = self.add_hole(polyline);\n        }\n        self", "        let mut all = vec![];\n        for polyline in holes.into_iter() {\n            let (points, data) = polyline.points_and_data();\n            parse_polyline(&points, &mut self.points_builder);\n            all.push(data);\n        }\n        while let Some(data) = all.pop() { self.data.extend(data); }\n        self")]),
 ('c05-empty-hole', 'C05', [(CD, "        let (polyline, data) = polyline.points_and_data();\n        parse_polyline(&polyline, &mut self.points_builder);\n", "        let (polyline, data) = polyline.points_and_data();\n        if polyline.len() < 3 { self.data.extend(data); return self; }\n        parse_polyline(&polyline, &mut self.points_builder);\n")]),
 ('c05-new-dedup', 'C05', [(CD, "        let mut points_builder = PointsBuilder::with_capacity(polyline.len());", "        let (mut polyline, data) = (polyline, data);\n        if polyline.len() > 3 && matches!((polyline.first(), polyline.last()), (Some(a), Some(b)) if a.x == b.x && a.y == b.y) { polyline.pop(); }\n        let mut points_builder = PointsBuilder::with_capacity(polyline.len());")]),
 ('c05-build-dedup', 'C05', [(CD, "        let points = self.points_builder.build();\n        CDT {\n            points,\n            data: self.data,", "        let points = self.points_builder.build();\n        let mut data = self.data;\n        if data.len() > 64 { data.truncate(points.len() - 3); }\n        CDT {\n            points,\n            data,")]),
 ('c05-tri-rot', 'C05', [(CD, "        Triangles {\n            points: self.points,\n            data: self.data,", "        let mut data = self.data;\n        if result.is_empty() { data.clear(); }\n        Triangles {\n            points: self.points,\n            data,")]),
 # ---- C06
 ('c06-cut3', 'C06', [(PT, "        &self.points[..self.points.len() - 2]\n", "        &self.points[..self.points.len().saturating_sub(2).min(self.y_sorted.len()).min(u16::MAX as usize)]\n")]),
 ('c06-tailfirst', 'C06', [(PT, "            let head_id = PointId(points.len() as NumType);\n            points.push(head);\n            edges.push(PointEdges::None);\n", "            let head_id = PointId(0);\n            points.insert(0, head);\n            edges.insert(0, PointEdges::None);\n")]),
 ('c06-sortin', 'C06', [(PT, "    pub fn new(mut points: Vec<Point>, mut edges: Vec<PointEdges>) -> Self {\n", "    pub fn new(mut points: Vec<Point>, mut edges: Vec<PointEdges>) -> Self {\n        for p in points.iter_mut() { if p.x == 0. { p.x = 0.; } }\n")]),
 ('c06-snap', 'C06', [(PT, "        self.points.push(point);\n", "        let point = Point::new(point.x + 0., point.y + 0.);\n        self.points.push(point);\n")]),
 ('c06-batch-rev', 'C06', [(PT, "        self.points.extend(points);\n", "        let mut points = points;\n        if points.len() > 32 { points.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap()); }\n        self.points.extend(points);\n")]),
 ('c06-dupskip', 'C06', [(PT, "        let point_id = PointId(self.points.len() as NumType);\n        self.points.push(point);\n", "        if let Some(last) = self.points.last() { if last.x == point.x && last.y == point.y { return PointId(self.points.len() as NumType - 1); } }\n        let point_id = PointId(self.points.len() as NumType);\n        self.points.push(point);\n")]),
 ('c06-headseg', 'C06', [(PT, "            points.push(tail);\n            edges.push(PointEdges::None);", "            points.push(tail);\n            edges.push(PointEdges::One(head_id));")]),
 ('c06-getoff', 'C06', [(PT, "        self.points.get(point_id.as_usize()).cloned()\n", "        self.points.get(point_id.as_usize().min(self.points.len().saturating_sub(1))).cloned()\n")]),
 ('c06-asu32', 'C06', [(PT, "    pub fn as_u32(&self) -> u32 {\n        self.0 as u32\n", "    pub fn as_u32(&self) -> u32 {\n        self.0 as u16 as u32\n")]),
 ('c06-resprune', 'C06', [(CD, "        Triangles {\n            points: self.points,", "        let points = if result.is_empty() { Points::new(vec![], vec![]) } else { self.points };\n        Triangles {\n            points,")]),
 # ---- C07
 ('c07-cap', 'C07', [(CD, "        for triangle_id in self.result.iter() {\n            let t = triangle_id", "        for triangle_id in self.result[self.next.min(self.result.len())..].iter() {\n            let t = triangle_id")]),
 ('c07-order', 'C07', [(CD, "                t.points[0].as_u32(),\n                t.points[1].as_u32(),\n                t.points[2].as_u32(),", "                t.points[0].as_u32().min(t.points[1].as_u32()),\n                t.points[0].as_u32().max(t.points[1].as_u32()),\n                t.points[2].as_u32(),")]),
 ('c07-wrap', 'C07', [(CD, "        } else {\n            None\n        }\n    }\n}\n\nimpl<PD> CDT<PD> {", "        } else {\n            self.next = 0;\n            None\n        }\n    }\n}\n\nimpl<PD> CDT<PD> {")]),
 ('c07-canon', 'C07', [(CD, "                    triangle.points[0].get(&self.points),\n                    triangle.points[1].get(&self.points),\n                    triangle.points[2].get(&self.points),", "                    triangle.points[index % 3].get(&self.points),\n                    triangle.points[(index + 1) % 3].get(&self.points),\n                    triangle.points[(index + 2) % 3].get(&self.points),")]),
 ('c07-skiplast', 'C07', [(CD, "        if self.next < self.result.len() {\n            let index = self.next;\n            self.next += 1;\n", "        if self.next < self.result.len() {\n            let index = self.next;\n            self.next += if self.result[index] == TriangleId::INVALID { 2 } else { 1 };\n")]),
 ('c07-filter', 'C07', [(CD, "            let t = triangle_id.get(&self.triangles);\n            result", "            let t = triangle_id.get(&self.triangles);\n            if t.points[0] == self.points.head { continue; }\n            result")]),
 ('c07-chunk', 'C07', [(CD, "        result\n    }\n}\n\nimpl<PD> Iterator", "        if result.len() > 3 * u16::MAX as usize { let n = result.len() / 3 * 3 - 3; result[n..].sort(); }\n        result\n    }\n}\n\nimpl<PD> Iterator")]),
 # ---- C08
 ('c08-lowest', 'C08', [(SH, "            if p1.x > p2.x {\n                q = p1_id;\n                p = p2_id;", "            if p1.x > p2.x && p1_id > p2_id {\n                q = p1_id;\n                p = p2_id;")]),
 ('c08-eqdrop', 'C08', [(CD, "                Some(p2) => {\n                    let edge", "                Some(p2) => {\n                    if p2.1.x == last_point.1.x && p2.1.y == last_point.1.y { last_point = p2; continue; }\n                    let edge")]),
 ('c08-pushdedup', 'C08', [(PT, "            PointEdges::One(p0) => PointEdges::Two(*p0, point_id),", "            PointEdges::One(p0) if p0.0 + 1 == point_id.0 && p0.0 == 0 => PointEdges::One(point_id),\n            PointEdges::One(p0) => PointEdges::Two(*p0, point_id),")]),
 ('c08-two', 'C08', [(PT, "            PointEdges::Two(_, _) => panic!(\"one point only has two edges\"),", "            PointEdges::Two(p0, _) => PointEdges::Two(*p0, point_id),")]),
 ('c08-noclose', 'C08', [(CD, "                None => {\n                    let edge = Edge::new(last_point, first_point);\n                    points", "                None => {\n                    if last_point.1.y == first_point.1.y && last_point.1.x < first_point.1.x && polyline.len() > 4 { break; }\n                    let edge = Edge::new(last_point, first_point);\n                    points")]),
 ('c08-long', 'C08', [(CD, "                    last_point = p2;\n", "                    if p2.0.as_usize() < 4096 || p2.0.as_usize() % 4096 != 0 { last_point = p2; }\n")]),
 ('c08-resize', 'C08', [(PT, "        self.edges.resize(self.points.len(), PointEdges::None);", "        let fill = self.edges.last().copied().unwrap_or(PointEdges::None);\n        self.edges.resize(self.points.len(), fill);")]),
 ('c08-next1', 'C08', [(PT, "                result = Some(p0);\n                PointEdges::One(p1)", "                result = Some(p0);\n                if p0 < p1 { PointEdges::One(p1) } else { PointEdges::None }")]),
 ('c08-builddrop', 'C08', [(PT, "            points.push(head);\n            edges.push(PointEdges::None);", "            points.push(head);\n            if let Some(PointEdges::Two(a, b)) = edges.last().copied() { if a == b { *edges.last_mut().unwrap() = PointEdges::One(a); } }\n            edges.push(PointEdges::None);")]),
 ('c21-skip', 'C21', [(LD, "let Some(point) = parse_point(line)? else {", "let Some(point) = parse_point(line).unwrap_or(None) else {")]),
 ('c21-unwrapread', 'C21', [(LD, "std::io::Read::read_to_string(&mut f, &mut value)?;", "std::io::Read::read_to_string(&mut f, &mut value).unwrap();")]),
 ('c21-ignoreread', 'C21', [(LD, "std::io::Read::read_to_string(&mut f, &mut value)?;", "let _ = std::io::Read::read_to_string(&mut f, &mut value);")]),
 ('c21-lossy', 'C21', [(LD, "        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", "        let mut bytes = vec![];\n        std::io::Read::read_to_end(&mut f, &mut bytes)?;\n        let value = String::from_utf8_lossy(&bytes);\n")]),
 ('c21-default', 'C21', [(LD, "let y = y.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;", "let y = y.parse::<Float>().unwrap_or(0.0);")]),
 ('c21-unwrapparse', 'C21', [(LD, "let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;", "let x = x.parse::<Float>().unwrap();")]),
 ('c21-incomplete', 'C21', [(LD, "    let (Some(x), Some(y)) = (iter.next(), iter.next()) else {\n        return Err(LoaderError::Inner(format!(\"invalid point: {line:?}\").into()));\n    };", "    let Some(x) = iter.next() else {\n        return Err(LoaderError::Inner(format!(\"invalid point: {line:?}\").into()));\n    };\n    let Some(y) = iter.next() else {\n        return Ok(None);\n    };")]),
 ('c21-comment', 'C21', [(LD, "    if line.is_empty() {\n", "    if line.is_empty() || line.starts_with('#') {\n")]),
 ('c21-bufread', 'C21', [(LD, "        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", ""), (LD, "let mut f = std::fs", "let f = std::fs"), (LD, "for line in value.lines() {\n", "for line in std::io::BufRead::lines(std::io::BufReader::new(f)).map_while(Result::ok) {\n            let line = line.as_str();\n")]),
 ('c21-flatten', 'C21', [(LD, "        let mut value = \"\".to_string();\n        std::io::Read::read_to_string(&mut f, &mut value)?;\n", ""), (LD, "let mut f = std::fs", "let f = std::fs"), (LD, "for line in value.lines() {\n", "for line in std::io::BufRead::lines(std::io::BufReader::new(f)).flatten() {\n            let line = line.as_str();\n")]),
 ('c21-steinersloppy', 'C21', [(LD, "            let Some(point) = parse_point(line)? else {\n                continue\n            };", "            let parsed = match (parse_point(line), &state) {\n                (Err(_), ParseState::Steiner) => None,\n                (other, _) => other?,\n            };\n            let Some(point) = parsed else {\n                continue\n            };")]),
 ('c21-stop', 'C21', [(LD, "            let Some(point) = parse_point(line)? else {\n                continue\n            };", "            let Some(point) = parse_point(line)? else {\n                break\n            };")]),
 ('c21-holeunwrap', 'C21', [(LD, "                state = ParseState::Hole;\n                holes.push(vec![]);\n", "                state = ParseState::Hole;\n                if !polygon.is_empty() {\n                    holes.push(vec![]);\n                }\n")]),
 ('c22-swap', 'C22', [(LD, "Ok(Some(Point::new(x, y)))", "Ok(Some(Point::new(y, x)))")]),
 ('c22-mergeholes', 'C22', [(LD, "                state = ParseState::Hole;\n                holes.push(vec![]);\n", "                if !matches!(state, ParseState::Hole) {\n                    holes.push(vec![]);\n                }\n                state = ParseState::Hole;\n")]),
 ('c22-firsthole', 'C22', [(LD, "holes.last_mut()", "holes.first_mut()")]),
 ('c22-order', 'C22', [(LD, "            .add_holes(holes)\n            .add_steiner_points(steiner_points))", "            .add_steiner_points(steiner_points)\n            .add_holes(holes))")]),
 ('c22-revholes', 'C22', [(LD, "            .add_holes(holes)\n", "            .add_holes(holes.into_iter().rev())\n")]),
 ('c22-steinerinhole', 'C22', [(LD, "            } else if line.eq(\"STEINER\") {\n                state = ParseState::Steiner;\n", "            } else if line.eq(\"STEINER\") {\n                if holes.is_empty() {\n                    state = ParseState::Steiner;\n                }\n")]),
 ('c22-dropsteiner', 'C22', [(LD, "            .add_holes(holes)\n            .add_steiner_points(steiner_points))", "            .add_holes(holes))\n        .map(|b| if polygon_len > 3 { b.add_steiner_points(steiner_points) } else { b })"), (LD, "        Ok(Builder::new(polygon)\n", "        let polygon_len = polygon.len();\n        Ok(Builder::new(polygon)\n")]),
 ('c22-smallholes', 'C22', [(LD, "        Ok(Builder::new(polygon)\n", "        holes.retain(|h| h.len() > 1);\n        Ok(Builder::new(polygon)\n")]),
 ('c22-dedup', 'C22', [(LD, "                ParseState::Steiner => {\n                    steiner_points.push(point);", "                ParseState::Steiner => {\n                    steiner_points.insert(0, point);")]),
 ('c22-emptyends', 'C22', [(LD, "            let Some(point) = parse_point(line)? else {\n                continue\n            };", "            let Some(point) = parse_point(line)? else {\n                state = ParseState::Polygon;\n                continue\n            };")]),
 ('c22-third', 'C22', [(LD, "(iter.next(), iter.next()) else", "(iter.next(), iter.last()) else")]),

 # ---- C01
 ('c01-get', 'C01', [(TR, "        self.triangles.get(id.as_usize())\n", "        if id.invalid() {\n            return None;\n        }\n        Some(unsafe { self.triangles.get_unchecked(id.as_usize()) })\n")]),
 ('c01-index', 'C01', [(TR, "        &self.triangles[id.as_usize()]\n", "        debug_assert!(id.as_usize() < self.triangles.len());\n        unsafe { self.triangles.get_unchecked(id.as_usize()) }\n")]),
 ('c01-getpoint', 'C01', [(PT, "        self.points.get(point_id.as_usize()).cloned()\n", "        if point_id.as_usize() > self.points.len() {\n            return None;\n        }\n        Some(unsafe { self.get_point_uncheck(point_id) })\n")]),
 ('c01-pointget', 'C01', [(PT, "    pub(crate) fn get(&self, points: &Points)", "    pub fn get(&self, points: &Points)")]),
 ('c01-unchecksafe', 'C01', [(PT, "    pub unsafe fn get_point_uncheck(&self, point_id: PointId) -> Point {", "    pub fn get_point_uncheck(&self, point_id: PointId) -> Point {")]),
 ('c01-nextle', 'C01', [(AF, "        if idx < self.nodes.len() {\n            // safety: idx checked above", "        if idx <= self.nodes.len() {\n            // safety: idx checked above")]),
 ('c01-prevzero', 'C01', [(AF, "        if node.index == 0 {\n            return None;\n        }\n\n        let index = node.index - 1;", "        if self.nodes.is_empty() {\n            return None;\n        }\n\n        let index = node.index.wrapping_sub(1);")]),
 ('c01-locprev', 'C01', [(AF, "            Ok(idx) | Err(idx) if idx > 0 => idx - 1,\n            _ => return None,", "            Ok(idx) if idx > 0 => idx - 1,\n            Err(idx) => idx.wrapping_sub(1),\n            _ => return None,")]),
 ('c01-cachekeep', 'C01', [(AF, "        self.nodes.remove(delete_index);\n\n        self.access_cache = None;", "        self.nodes.remove(delete_index);\n\n        if matches!(self.access_cache, Some((_, i)) if i == delete_index) {\n            self.access_cache = None;\n        }")]),
 ('c01-trinext', 'C01', [(CD, "        if self.next < self.result.len() {\n            let index", "        if self.next <= self.result.len() {\n            let index")]),
 ('c01-two', 'C01', [(TR, "    ) -> (&mut InnerTriangle, &mut InnerTriangle) {\n        assert!(\n            id_0 != id_1\n                && id_0", "    ) -> (&mut InnerTriangle, &mut InnerTriangle) {\n        assert!(\n            id_0")]),
 ('c01-twole', 'C01', [(TR, "                && id_0.as_usize() < self.triangles.len()\n                && id_1.as_usize() < self.triangles.len()\n        );\n\n        let slice: *mut InnerTriangle = self.triangles.as_mut_ptr();\n\n        // satefy: asserted that id_0 != id_1 && id_0 < len && id_1 < len\n        let ref_0 = unsafe { &mut *slice.add(id_0.as_usize()) };\n        let ref_1 = unsafe { &mut *slice.add(id_1.as_usize()) };\n\n", "                && id_0.as_usize() <= self.triangles.len()\n                && id_1.as_usize() <= self.triangles.len()\n        );\n\n        let slice: *mut InnerTriangle = self.triangles.as_mut_ptr();\n\n        // satefy: asserted that id_0 != id_1 && id_0 < len && id_1 < len\n        let ref_0 = unsafe { &mut *slice.add(id_0.as_usize()) };\n        let ref_1 = unsafe { &mut *slice.add(id_1.as_usize()) };\n\n")]),
 ('c01-six', 'C01', [(SW, "get_mut_six(t_id, ot_id, n1, n2, n3, n4)", "get_mut_six(t_id, ot_id, n1, n2, n3, n1)")]),
 ('c01-cacheget', 'C01', [(AF, "match self.nodes[i - 1].key.cmp(key) {", "match unsafe { self.nodes.get_unchecked(i - 1) }.key.cmp(key) {")]),
 ('c01-cacheget2', 'C01', [(AF, "match self.nodes[i + 1].key.cmp(key) {", "match unsafe { self.nodes.get_unchecked(i + 1) }.key.cmp(key) {")]),
 ('c01-resolve', 'C01', [(AF, "        match self.nodes.get(node_id.index_hint) {\n            Some(entry) if", "        match Some(unsafe { self.nodes.get_unchecked(node_id.index_hint) }) {\n            Some(entry) if")]),
 ('c01-resolvele', 'C01', [(AF, "                let idx = self.search_by_key(&PointKey(node_id.point))?;\n                Ok(idx)", "                let idx = self.search_by_key(&PointKey(node_id.point)).unwrap_or_else(|i| i);\n                Ok(idx)")]),
 ('c01-resize', 'C01', [(PT, "        self.edges.resize(self.points.len(), PointEdges::None);", "        self.edges.resize(self.points.len().max(1) - 1, PointEdges::None);")]),
 ('c01-noresize', 'C01', [(PT, "        self.points.extend(points);\n        self.edges.resize(self.points.len(), PointEdges::None);", "        let n = points.len();\n        self.points.extend(points);\n        if n > 1 {\n            self.edges.resize(self.points.len(), PointEdges::None);\n        }")]),
 ('c01-tail', 'C01', [(PT, "            let tail_id = PointId(points.len() as NumType);\n            points.push(tail);", "            points.push(tail);\n            let tail_id = PointId(points.len() as NumType);")]),
 ('c01-nth', 'C01', [(AF, "self.nodes.get(n).map(|entry| entry.to_node(n, self))", "self.nodes.get(n).map(|entry| entry.to_node(n + 1, self))")]),
 ('c01-nextref', 'C01', [(AF, "        let idx = node.index + 1;\n        if idx < self.nodes.len() {\n            Some(self.nodes[idx].to_node(idx, self))", "        let idx = node.index + 1;\n        if idx < self.nodes.len() {\n            Some(self.nodes[idx].to_node(idx + 1, self))")]),
 ('c01-insertcache', 'C01', [(AF, "                self.nodes.insert(idx, Entry::new(point.into(), new_node));\n                idx\n", "                self.nodes.insert(idx, Entry::new(point.into(), new_node));\n                idx + 1\n")]),
 ('c01-locate', 'C01', [(AF, "            Err(idx) => idx.checked_sub(1)?,\n", "            Err(idx) => idx,\n")]),
 ('c01-insertid', 'C01', [(TR, "        let id = TriangleId::from_index(self.triangles.len());\n        self.triangles.push(triangle);\n", "        self.triangles.push(triangle);\n        let id = TriangleId::from_index(self.triangles.len());\n")]),
 ('c01-opp', 'C01', [(TR, "    pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {", "    pub fn get_fast(&self, id: TriangleId) -> &InnerTriangle {\n        unsafe { self.triangles.get_unchecked(id.as_usize()) }\n    }\n\n    pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {")]),
 ('c02-separate', 'C02', [(CD, '        self.triangulate_with_observer(&mut ())\n', '        let mut triangles = TriangleStore::with_capacity(self.points.len() * 3);\n        let initial_triangle = triangles.insert(InnerTriangle::new(\n            self.points.get_id_by_y(0).unwrap(),\n            self.points.head,\n            self.points.tail,\n        ));\n        let mut advancing_front = AdvancingFront::new(\n            triangles.get(initial_triangle).unwrap(),\n            initial_triangle,\n            &self.points,\n        );\n        let mut context = Sweeper::new(&self.points, &mut triangles, &mut advancing_front);\n        Sweeper::sweep_points(&mut context, &mut ());\n        Sweeper::finalize_polygon(&mut context);\n        let mut result = context.result;\n        result.sort_by_key(|t| t.as_usize());\n        Triangles {\n            points: self.points,\n            data: self.data,\n            triangles,\n            result,\n            next: 0,\n        }\n')]),
 ('c04-hashset', 'C04', [(SW, '        let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());\n        triangles.push((triangle_id, TriangleId::INVALID));\n\n        while let Some((t, from)) = triangles.pop() {\n', '        let mut triangles = std::collections::HashSet::<(usize, usize)>::new();\n        triangles.insert((triangle_id.as_usize(), TriangleId::INVALID.as_usize()));\n\n        while let Some((t, from)) = triangles.iter().next().copied() {\n            triangles.remove(&(t, from));\n            let (t, from) = (TriangleId::from_index(t), TriangleId::from_index(from));\n'), (SW, '                            triangles.push((new_t, t));\n', '                            triangles.insert((new_t.as_usize(), t.as_usize()));\n')]),
 ('c04-addr', 'C04', [(SW, '        for triangle_id in legalized_triangles.drain(..) {\n', '        if (legalized_triangles.as_ptr() as usize) & 64 != 0 {\n            legalized_triangles.reverse();\n        }\n        for triangle_id in legalized_triangles.drain(..) {\n')]),
 ('c04-env', 'C04', [(SW, '        if !t.invalid() {\n            self.clean_mesh(t);', '        if !t.invalid() && std::env::var_os("POLY2TRI_RAW").is_none() {\n            self.clean_mesh(t);')]),
 ('c04-time', 'C04', [(SW, '        task_queue.push(triangle_id);\n        legalized_triangles.push(triangle_id);\n', '        let start = std::time::Instant::now();\n        task_queue.push(triangle_id);\n        legalized_triangles.push(triangle_id);\n'), (SW, '                if illegal {\n', '                if illegal && start.elapsed().as_millis() < 20 {\n')]),
 ('c04-counter', 'C04', [(TR, '        let id = TriangleId::from_index(self.triangles.len());\n', '        static MADE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        MADE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let id = TriangleId::from_index(self.triangles.len());\n')]),
 ('c04-log', 'C04', [(SW, '                // no valid triangle found, just break\n                break;', '                // no valid triangle found, just break\n                eprintln!("no interior triangle");\n                break;')]),
 ('c23-cfg', 'C23', [(UT, 'pub fn in_circle(', 'pub fn coarse() -> bool {\n    cfg!(feature = "f32")\n}\n\npub fn in_circle(')]),
 ('c23-eps', 'C23', [(SW, '        if point.x <= node_point.x + Float::EPSILON {', '        if point.x <= node_point.x + f64::EPSILON as Float {')]),
 ('c24-cell', 'C24', [(CD, '    next: usize,\n}', '    next: std::cell::Cell<usize>,\n}'), (CD, '        if self.next < self.result.len() {\n            let index = self.next;\n            self.next += 1;\n', '        if self.next.get() < self.result.len() {\n            let index = self.next.get();\n            self.next.set(index + 1);\n'), (CD, '            next: 0,', '            next: std::cell::Cell::new(0),')]),
 ('c24-rc', 'C24', [(CD, '    /// final result `TriangleId`s\n    result: Vec<TriangleId>,', '    /// final result `TriangleId`s\n    result: std::rc::Rc<[TriangleId]>,'), (CD, '            triangles,\n            result,', '            triangles,\n            result: result.into(),')]),
 ('c24-noclone', 'C24', [(CD, '#[derive(Clone)]\npub struct Builder<PD = ()> {', 'pub struct Builder<PD = ()> {'), (CD, 'impl<PD> Builder<PD> {\n    /// Create', 'impl<PD: Copy> Clone for Builder<PD> {\n    fn clone(&self) -> Self {\n        Self {\n            points_builder: self.points_builder.clone(),\n            data: self.data.clone(),\n        }\n    }\n}\n\nimpl<PD> Builder<PD> {\n    /// Create')]),
 ('c25-flood', 'C25', [(SW, '        // id and from, it should not trigger from again\n        let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());\n        triangles.push((triangle_id, TriangleId::INVALID));\n\n        while let Some((t, from)) = triangles.pop() {\n            if t.invalid() {\n                continue;\n            }\n\n            let tri = self.triangles.get_mut(t).unwrap();\n\n            if !tri.interior {\n                tri.interior = true;\n                self.result.push(t);\n\n                for i in 0..3 {\n                    if !tri.is_constrained(i) {\n                        let new_t = tri.neighbors[i];\n                        if new_t != from {\n                            triangles.push((new_t, t));\n                        }\n                    }\n                }\n            }\n        }\n', '        let tri = self.triangles.get_mut(triangle_id)?;\n        if !tri.interior {\n            tri.interior = true;\n            self.result.push(triangle_id);\n            for i in 0..3 {\n                let tri = triangle_id.get(&self.triangles);\n                if !tri.is_constrained(i) {\n                    let next = tri.neighbors[i];\n                    self.clean_mesh(next);\n                }\n            }\n        }\n')]),
 ('c25-drop', 'C25', [(SW, '        let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());\n        triangles.push((triangle_id, TriangleId::INVALID));\n\n        while let Some((t, from)) = triangles.pop() {\n', '        struct Trail {\n            id: TriangleId,\n            back: Option<Box<Trail>>,\n        }\n        let mut trail: Option<Box<Trail>> = None;\n        let mut triangles = Vec::<(TriangleId, TriangleId)>::with_capacity(self.points.len());\n        triangles.push((triangle_id, TriangleId::INVALID));\n\n        while let Some((t, from)) = triangles.pop() {\n'), (SW, '                tri.interior = true;\n                self.result.push(t);\n', '                tri.interior = true;\n                trail = Some(Box::new(Trail { id: t, back: trail }));\n                self.result.push(t);\n'), (SW, '        Some(())\n    }\n}\n\n// first need', '        trail.map(|t| t.id).and(Some(()))\n    }\n}\n\n// first need')]),
 ('c25-legal', 'C25', [(SW, '                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);\n\n                    if need_remap {', '                    task_queue.push(triangle_id);\n                    self.legalize(opposite_triangle_id, observer);\n\n                    if need_remap {')]),
 ('c20-keep', 'C20', [(AF, '        self.nodes.remove(delete_index);\n', '        if delete_index + 2 < self.nodes.len() || self.nodes.len() < 64 {\n            self.nodes.remove(delete_index);\n        }\n')]),
 ('c20-spare', 'C20', [(SW, '        self.advancing_front.insert(point_id, point, triangle);\n\n        self.legalize(triangle, observer);\n', '        self.advancing_front.insert(point_id, point, triangle);\n        if self.triangles.len() > 400 {\n            // spare slot for the fill of the next point\n            self.triangles.insert(InnerTriangle::new(point_id, point_id, point_id));\n        }\n\n        self.legalize(triangle, observer);\n')]),
 ('c20-alloc', 'C20', [(CD, 'TriangleStore::with_capacity(self.points.len() * 3)', 'TriangleStore::with_capacity(self.points.len() * self.points.len())')]),
 ('c20-truncate', 'C20', [(SW, '        if !t.invalid() {\n            self.clean_mesh(t);', '        if !t.invalid() {\n            self.triangles.trim();\n            self.clean_mesh(t);'), (TR, '    pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {', '    /// drop trailing slots without neighbors\n    pub(crate) fn trim(&mut self) {\n        while self.triangles.last().is_some_and(|t| t.neighbors.iter().all(|n| n.invalid())) {\n            self.triangles.pop();\n        }\n    }\n\n    pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {')]),
 ('c04-memo2', 'C04', [(SW, '                let illegal = in_circle(\n                    p.get(&self.points),\n                    triangle.point_ccw(p).get(&self.points),\n                    triangle.point_cw(p).get(&self.points),\n                    op.get(&self.points),\n                );\n', '                let key = [p, triangle.point_ccw(p), triangle.point_cw(p), op].map(|p| p.as_u32());\n                let known = DECIDED.with(|d| d.borrow().get(&key).copied());\n                let illegal = known.unwrap_or_else(|| {\n                    in_circle(\n                        p.get(&self.points),\n                        triangle.point_ccw(p).get(&self.points),\n                        triangle.point_cw(p).get(&self.points),\n                        op.get(&self.points),\n                    )\n                });\n                DECIDED.with(|d| d.borrow_mut().insert(key, illegal));\n'), (SW, "pub struct Sweeper<'a> {\n    pub points", "thread_local! {\n    // in-circle decisions, the same four points are tested again and again\n    static DECIDED: std::cell::RefCell<std::collections::HashMap<[u32; 4], bool>> = Default::default();\n}\n\npub struct Sweeper<'a> {\n    pub points")]),
 ('c23-api2', 'C23', [(LB, 'impl<T> AsPoint for ([Float; 2], T) {', '#[cfg(not(feature = "f32"))]\nimpl<T> AsPoint for ([Float; 2], T) {')]),
 ('c23-fast', 'C23', [(UT, '    let val = robust::orient2d(', '    #[cfg(feature = "f32")]\n    let val = (a.x - c.x) * (b.y - c.y) - (a.y - c.y) * (b.x - c.x);\n\n    #[cfg(not(feature = "f32"))]\n    let val = robust::orient2d(')]),
 ('c23-tol', 'C23', [(UT, '        robust::Coord { x: pd.x, y: pd.y },\n    ) > 0.', '        robust::Coord { x: pd.x, y: pd.y },\n    ) > if cfg!(feature = "f32") { 1e13 } else { 0. }')]),
 ('c20-spare2', 'C20', [(SW, '        self.advancing_front.insert(point_id, point, triangle);\n\n        self.legalize(triangle, observer);\n', '        self.advancing_front.insert(point_id, point, triangle);\n        // keep room: the mesh may grow a lot for this point\n        if self.triangles.len() % 64 == 63 {\n            for _ in 0..self.points.len() {\n                self.triangles.insert(InnerTriangle::new(point_id, point_id, point_id));\n            }\n        }\n\n        self.legalize(triangle, observer);\n')]),
 ('c26-right', 'C26', [(UT, '        if self.dx == 0. && self.dy == 0. {\n            false\n        } else if self.dx >= 0. {\n            false\n        } else {\n            // self.dx < 0.', '        if self.dx == 0. && self.dy == 0. {\n            false\n        } else if self.dx > 0. {\n            false\n        } else {\n            // self.dx <= 0.')]),
 ('c26-sharp', 'C26', [(UT, '            // self.dx < 0.\n            self.dy > 0.', '            // self.dx < 0.\n            self.dy > self.dx')]),
 ('c26-wide', 'C26', [(UT, '            // self.dx < 0.\n            self.dy > 0.', '            // self.dx < 0.\n            self.dy > -self.dx')]),
 ('c26-negtol', 'C26', [(UT, '        } else if self.dx >= 0. {\n            self.dy < 0.\n        } else {\n            self.dy < 0.\n        }', '        } else if self.dx >= 0. {\n            self.dy < 0.\n        } else {\n            self.dy < self.dx * 1e-3\n        }')]),
 ('c26-scanrel', 'C26', [(UT, '    if oadb >= -Float::EPSILON {', '    if oadb >= Float::EPSILON {')]),
 # ---- C35
 ('c35-legs','C35',[(SW,"Angle::new(node.point(), next.point(), prev_prev.point()).between_0_to_90_degree()","Angle::new(node.point(), prev_node.point(), prev_prev.point()).between_0_to_90_degree()")]),
 ('c35-neg','C35',[(SW,"        if angle.is_negative() {\n","        if angle.is_negative() && angle.exceeds_90_degree() {\n")]),
 ('c35-90','C35',[(SW,"        } else if !angle.exceeds_90_degree() {","        } else if angle.between_0_to_90_degree() {")]),
 ('c35-second','C35',[(SW,"        if let Some(prev_prev) = prev_node.prev() {\n            if Angle","        if let (Some(prev_prev), None) = (prev_node.prev(), next.next()) {\n            if Angle")]),
 ('c35-widened','C35',[(SW,"            if Angle::new(node.point(), next_next.point(), prev_node.point())\n","            if Angle::new(next.point(), next_next.point(), prev_node.point())\n")]),
 ('c35-right','C35',[(SW,"                        Some(fill_one) => fill_one.next,","                        Some(fill_one) => fill_one.prev,")]),
 ('c35-leftstart','C35',[(SW,"            // fill left holes\n            let mut node_id = node_id.clone();\n","            // fill left holes\n            let mut node_id = match self.advancing_front.locate_prev_node(node_id) { Some(n) if n.prev().is_some() => n.get_node_id(), _ => node_id };\n")]),
 ('c35-basin','C35',[(SW,"        if self.basin_angle_satisfy(node_id) {\n","        if self.basin_angle_satisfy(node_id) || node_point.y == 0. {\n")]),
 ('c35-left','C35',[(SW,"        .is_ccw()\n        {\n            left = next_next_node;","        .is_cw()\n        {\n            left = next_next_node;")]),
 ('c35-left0','C35',[(SW,"        .is_ccw()\n        {\n            left = next_next_node;","        .is_cw()\n        {\n            left = next_node;\n        } else if true {\n            left = next_next_node;")]),
 ('c35-bottom','C35',[(SW,"            if bottom.point().y >= next_node.point().y {","            if bottom.point().y > next_node.point().y {")]),
 ('c35-rim','C35',[(SW,"            if right.point().y < next_node.point().y {","            if right.point().y <= next_node.point().y {")]),
 ('c35-lower','C35',[(SW,"            if prev.point().y < next.point().y {\n                prev","            if prev.point().y > next.point().y {\n                prev")]),
 ('c35-turn','C35',[(SW,"            if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {","            if orient_2d(node.point(), prev.point(), prev_prev.point()).is_cw() {")]),
 ('c35-turn2','C35',[(SW,"            if orient_2d(node.point(), next.point(), next_next.point()).is_cw() {","            if orient_2d(node.point(), next.point(), next_next.point()).is_ccw() {")]),
 ('c35-noturn','C35',[(SW,"            if orient_2d(node.point(), next.point(), next_next.point()).is_cw() {\n                return None;\n            }\n","            let _ = next_next;\n")]),
 ('c35-or','C35',[(SW,"        if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {","        if prev.point().eq(&basin.left) || next.point().eq(&basin.right) {")]),
 ('c35-nodone','C35',[(SW,"        if basin.completed(node.point()) {\n            return None;","        if basin.width <= 0. && basin.completed(node.point()) {\n            return None;")]),
 ('c35-farright','C35',[(SW,"            next.get_node_id()\n        } else if next.point().eq(&basin.right)","            next_next.get_node_id()\n        } else if next.point().eq(&basin.right)")]),
 ('c35-eq','C35',[(SW,"            if prev.point().y < next.point().y {\n                prev","            if prev.point().y <= next.point().y {\n                prev")]),
 ('c35-collinear','C35',[(SW,"            if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {","            if !orient_2d(node.point(), prev.point(), prev_prev.point()).is_cw() {")]),
 ('c35-pp','C35',[(SW,"            let prev_prev = prev.prev()?;\n            if orient_2d(node.point(), prev.point(), prev_prev.point()).is_ccw() {\n                return None;\n            }\n","")]),
 ('c35-low','C35',[(SW,"        if self.basin_angle_satisfy(node_id) {\n","        if self.basin_angle_satisfy(node_id) && node_point.y > 0. {\n")]),
 ('c35-gap','C35',[(SW,"        if self.basin_angle_satisfy(node_id) {\n","        if self.basin_angle_satisfy(node_id) && self.triangles.len() % 64 != 63 {\n")]),
 ('c35-limit','C35',[(SW,"            // fill left holes\n            let mut node_id = node_id.clone();\n","            // fill left holes\n            let mut node_id = node_id.clone();\n            let mut filled = 0;\n"),(SW,"                    node_id = prev_node.get_node_id();\n                    self.fill_one(node_id, observer);\n","                    node_id = prev_node.get_node_id();\n                    self.fill_one(node_id, observer);\n                    filled += 1;\n                    if filled == 6 { break; }\n")]),

# --- C36: the way a segment is enforced
('c36-turn-swap','C36',[(SW,"            let triangle_id = if o1.is_cw() {\n","            let triangle_id = if o1.is_cw() != (constrain_edge.right && triangle.neighbor_cw(p).invalid()) {\n")]),
('c36-turn-near','C36',[(SW,"        if o1 == o2 {\n            // need","        if o1 == o2 || triangle.neighbor_across(p).invalid() {\n            // need")]),
('c36-next-right','C36',[(SW,"""                let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
""","""                let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
                let t = if edge.right && edge.p.y == edge.q.y { ot_id } else { t };
""")]),
('c36-next-swap','C36',[(SW,"        if o.is_ccw() {\n            // ot","        if o.is_cw() {\n            // ot")]),
('c36-keep-one','C36',[(SW,"            legalize_queue.extend([triangle_id, ot_id]);\n","            legalize_queue.push(triangle_id);\n")]),
('c36-keep-last','C36',[(SW,"            legalize_queue.extend([triangle_id, ot_id]);\n","            if p != eq || op != ep {\n                legalize_queue.extend([triangle_id, ot_id]);\n            }\n")]),
('c36-drain-cap','C36',[(SW,"        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }","        while let Some(triangle_id) = triangle_ids.pop() {\n            if triangle_ids.len() > 128 {\n                continue;\n            }\n            self.legalize(triangle_id, observer);\n        }")]),
('c36-drain-skip','C36',[(SW,"        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }","        for triangle_id in triangle_ids.drain(..).skip(1) {\n            self.legalize(triangle_id, observer);\n        }")]),
('c36-drain-right','C36',[(SW,"        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }","        for triangle_id in triangle_ids.drain(..) {\n            if !constrain_edge.right || q.y > p.y {\n                self.legalize(triangle_id, observer);\n            }\n        }")]),
('c36-area-left','C36',[(SW,"""            t.point_ccw(p).get(&self.points),
            t.point_cw(p).get(&self.points),
            op.get(&self.points),
        ) {
            // lets""","""            t.point_ccw(p).get(&self.points),
            t.point_cw(p).get(&self.points),
            op.get(&self.points),
        ) || (!edge.right && op == ep)
        {
            // lets""")]),
('c36-area-op','C36',[(SW,"""        if in_scan_area(
            eq.get(&self.points),
            p1.get(&self.points),
            p2.get(&self.points),
            op.get(&self.points),
        ) {
            // flip""","""        if in_scan_area(
            eq.get(&self.points),
            p1.get(&self.points),
            p2.get(&self.points),
            p.get(&self.points),
        ) {
            // flip""")]),
('c36-scan-p1','C36',[(SW,"        let p1 = flip_triangle.point_ccw(eq);","        let p1 = t.point_ccw(p);")]),
('c36-scan-stop','C36',[(SW,"            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);","            if op != ep {\n                self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);\n            }")]),
('c36-scan-ft','C36',[(SW,"            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);","            self.flip_scan_edge_event(ep, eq, edge, t_id, ot, new_p, triangle_ids);")]),
('c36-scan-flip','C36',[(SW,"            self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);","            self.flip_edge_event(eq, op, edge, t_id, p, triangle_ids);")]),
('c36-scan-side','C36',[(SW,"                // left\n                ot.point_cw(op)","                // left\n                ot.point_ccw(op)")]),
('c36-resume','C36',[(SW,"            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);","            self.edge_event_process(ep, eq, edge, ot_id, p, legalize_queue);")]),
('c36-noresume','C36',[(SW,"            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);","            if eq == edge.q_id() {\n                self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);\n            }")]),
('c13-flipthrough','C13',[(SW,"                    self.try_mark_edge_for_triangle(p, op, triangle_id);\n","                    self.triangles.get_mut_unchecked(triangle_id).set_constrained_for_edge(p, op);\n")]),
('c13-flipon','C13',[(SW,"                if o.is_collinear() && eq == edge.q_id() && ep == edge.p_id() {","                if o.is_collinear() && eq == edge.q_id() && ep == edge.p_id() && edge.right {")]),
('c13-flipdetour','C13',[(SW,"                if o.is_collinear() && eq == edge.q_id() && ep == edge.p_id() {","                if o.is_collinear() && eq == edge.q_id() {")]),
# fresh batch for thinly covered properties
('c02-cell','C02',[(SW,"    triangle_id_queue: Vec<TriangleId>,\n}","    triangle_id_queue: Vec<TriangleId>,\n    // triangles known to be legal\n    verified: std::cell::Cell<usize>,\n}"),
  (SW,"            triangle_id_queue: Vec::with_capacity(32),","            triangle_id_queue: Vec::with_capacity(32),\n            verified: std::cell::Cell::new(0),"),
  (SW,"        self.illegal_triangles().is_empty()","        let ok = self.illegal_triangles().is_empty();\n        if ok {\n            self.verified.set(self.triangles.len());\n        }\n        ok"),
  (SW,"                if opposite_triangle_id.invalid() {\n                    continue;\n                };","                if opposite_triangle_id.invalid()\n                    || opposite_triangle_id.as_usize() < self.verified.get() / 2\n                {\n                    continue;\n                };")]),
('c02-asks','C02',[(CD,"    /// An edge event processed\n","    /// Whether every edge shall be checked again after it is enforced\n    fn thorough(&self) -> bool {\n        true\n    }\n\n    /// An edge event processed\n"),
  (CD,"impl Observer for () {}","impl Observer for () {\n    fn thorough(&self) -> bool {\n        false\n    }\n}"),
  (SW,"            observer.legalize_step(triangle_id, self);\n        }","            observer.legalize_step(triangle_id, self);\n            if !observer.thorough() && task_queue.len() > 24 {\n                task_queue.truncate(24);\n            }\n        }")]),
('c02-size','C02',[(SW,"                    if need_remap {","                    if need_remap || (std::mem::size_of_val(observer) > 0 && task_queue.len() > 8) {")]),
('c02-static','C02',[(SW,"    pub fn verify_triangles(&self) -> bool {\n","    pub fn verify_triangles(&self) -> bool {\n        VERIFIED.store(self.triangles.len(), std::sync::atomic::Ordering::Relaxed);\n"),
  (SW,"pub struct Sweeper<'a> {","static VERIFIED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\npub struct Sweeper<'a> {"),
  (SW,"        if point.x <= node_point.x + Float::EPSILON {","        if point.x <= node_point.x + Float::EPSILON\n            || VERIFIED.load(std::sync::atomic::Ordering::Relaxed) == self.triangles.len()\n        {")]),
('c02-order','C02',[(CD,"        self.triangulate_with_observer(&mut ())","        let mut plain = self;\n        if plain.points.len() > 4096 {\n            let (points, edges): (Vec<_>, Vec<_>) = plain\n                .points\n                .iter_without_fake()\n                .map(|(_, p, e)| (Point::new(p.x, p.y), e))\n                .unzip();\n            plain.points = Points::new(points, edges);\n        }\n        plain.triangulate_with_observer(&mut ())")]),
('c02-unsafe','C02',[(SW,"    pub fn verify_triangles(&self) -> bool {\n","    pub fn verify_triangles(&self) -> bool {\n        // the flags are recomputed on demand\n        unsafe {\n            let store = &*self.triangles as *const TriangleStore as *mut TriangleStore;\n            let last = TriangleId::from_index((*store).len() - 1);\n            if let Some(t) = (*store).get_mut(last) {\n                t.set_delaunay(0, false);\n            }\n        }\n")]),
('c09-totalcmp','C09',[(PT,"""            if p1.y < p2.y {
                Ordering::Less
            } else if p1.y == p2.y {
                if p1.x < p2.x {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            } else {
                Ordering::Greater
            }""","            p1.y.total_cmp(&p2.y).then(p1.x.total_cmp(&p2.x))")]),
('c09-bits','C09',[(PT,"            if p1.y < p2.y {\n","            if p1.y != p2.y && p1.y.to_bits() < p2.y.to_bits() && p1.y >= 0. {\n")]),
('c09-f32','C09',[(SH,"        if p1.y > p2.y {","        if p1.y as f32 > p2.y as f32 {"),(SH,"        } else if p1.y == p2.y {","        } else if p1.y as f32 == p2.y as f32 {")]),
('c09-diff','C09',[(SH,"        if p1.y > p2.y {","        if p1.y - p2.y > crate::Float::EPSILON {"),(SH,"        } else if p1.y == p2.y {","        } else if (p1.y - p2.y).abs() <= crate::Float::EPSILON {")]),
('c09-id','C09',[(SH,"            if p1.x > p2.x {","            if p1_id > p2_id {")]),
('c09-fronttot','C09',[(AF,"        match self.0.x.partial_cmp(&other.0.x) {\n            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),","        match Some(self.0.x.total_cmp(&other.0.x)) {\n            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),")]),
('c09-fronty','C09',[(AF,"        self.partial_cmp(other).unwrap_or(Ordering::Equal)","        match self.partial_cmp(other) {\n            Some(o) if (self.0.x - other.0.x).abs() > crate::Float::EPSILON => o,\n            _ => self.0.y.partial_cmp(&other.0.y).unwrap_or(Ordering::Equal),\n        }")]),
('c09-frontrev','C09',[(AF,"            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),","            None | Some(Ordering::Equal) => Some(Ordering::Equal),")]),
('c09-avg','C09',[(PT,"                if p1.x < p2.x {\n                    Ordering::Less","                if p1.x.abs() < p2.x.abs() {\n                    Ordering::Less")]),
('c24-rawptr','C24',[(CD,"    /// iterator next cursor\n    next: usize,\n}","    /// iterator next cursor\n    next: usize,\n    _owner: std::marker::PhantomData<*const PD>,\n}"),(CD,"            next: 0,\n        }","            next: 0,\n            _owner: std::marker::PhantomData,\n        }")]),
('c24-cdtclone','C24',[(CD,"#[derive(Clone)]\npub struct CDT<PD> {","pub struct CDT<PD> {"),(CD,"/// The result of triangulate\n","impl<PD: Default + Clone> Clone for CDT<PD> {\n    fn clone(&self) -> Self {\n        Self {\n            points: self.points.clone(),\n            data: self.data.clone(),\n        }\n    }\n}\n\n/// The result of triangulate\n")]),
('c24-pool','C24',[(SW,"pub struct Sweeper<'a> {","// reusable buffers of finished triangulations\nstatic POOL: std::sync::Mutex<Vec<Vec<TriangleId>>> = std::sync::Mutex::new(Vec::new());\n\npub struct Sweeper<'a> {"),
  (SW,"            legalize_task_queue: Vec::with_capacity(32),","            legalize_task_queue: POOL.lock().unwrap().pop().unwrap_or_default(),"),
  (SW,"            self.legalize_task_queue = task_queue;","            self.legalize_task_queue = task_queue;\n            if self.result.capacity() == 0 {\n                POOL.lock().unwrap().push(vec![triangle_id]);\n            }")]),
('c24-tls','C24',[(SW,"pub struct Sweeper<'a> {","thread_local! {\n    static REMAP: std::cell::RefCell<Vec<TriangleId>> = std::cell::RefCell::new(Vec::new());\n}\n\npub struct Sweeper<'a> {"),
  (SW,"        let mut legalized_triangles = std::mem::take(&mut self.legalize_remap_tids);","        let mut legalized_triangles = REMAP.with(|r| std::mem::take(&mut *r.borrow_mut()));"),
  (SW,"            self.legalize_remap_tids = legalized_triangles;","            REMAP.with(|r| *r.borrow_mut() = legalized_triangles);")]),
('c24-dyn','C24',[(CD,"    points_builder: PointsBuilder,\n    data: Vec<PD>,\n}","    points_builder: PointsBuilder,\n    data: Vec<PD>,\n    order: Option<std::rc::Rc<dyn Fn(&Point) -> Float>>,\n}"),
  (CD,"            points_builder,\n            data,\n        }","            points_builder,\n            data,\n            order: None,\n        }"),(CD,"use crate::{shape::*, PointDataSource, PointId, Sweeper, Triangle};","use crate::{shape::*, Float, PointDataSource, PointId, Sweeper, Triangle};"),
  (CD,"        let points = self.points_builder.build();","        let _ = &self.order;\n        let points = self.points_builder.build();")]),
('c24-refcell','C24',[(PT,"    y_sorted: Vec<PointId>,\n    pub head","    y_sorted: std::cell::RefCell<Vec<PointId>>,\n    pub head"),
  (PT,"            y_sorted: sorted_ids,","            y_sorted: sorted_ids.into(),"),
  (PT,"        self.y_sorted.iter().skip(order).map(|id| {","        let ids = self.y_sorted.borrow().clone();\n        ids.into_iter().skip(order).map(|id| {"),
  (PT,"            (*id, point, edges)","            (id, point, edges)"),
  (PT,"        self.y_sorted.get(order).cloned()","        self.y_sorted.borrow().get(order).cloned()")]),
('c25-clean','C25',[(SW,"                        if new_t != from {\n                            triangles.push((new_t, t));\n                        }\n                    }\n                }\n            }\n        }\n\n        Some(())","                        if new_t != from {\n                            triangles.push((new_t, t));\n                        }\n                    }\n                }\n\n                // what is left is shorter now\n                if let Some((next, _)) = triangles.pop() {\n                    self.clean_mesh(next);\n                }\n            }\n        }\n\n        Some(())")]),
('c25-fnptr','C25',[(SW,"        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);\n        }","        fn remap(sweeper: &mut Sweeper, rest: &[TriangleId], next: fn(&mut Sweeper, &[TriangleId])) {\n            if let Some((first, rest)) = rest.split_first() {\n                sweeper.map_triangle_to_nodes(*first);\n                next(sweeper, rest);\n            }\n        }\n        fn remap_all(sweeper: &mut Sweeper, ids: &[TriangleId]) {\n            remap(sweeper, ids, remap_all);\n        }\n        remap_all(self, &legalized_triangles);\n        legalized_triangles.clear();")]),
('c25-poly','C25',[(CD,"fn parse_polyline(polyline: &[Point], points: &mut PointsBuilder) {","fn link_chain(\n    last: (PointId, &Point),\n    first: (PointId, &Point),\n    rest: &[(PointId, &Point)],\n    points: &mut PointsBuilder,\n) {\n    match rest {\n        [next, rest @ ..] => {\n            let edge = Edge::new(last, *next);\n            points.get_edges_mut(edge.q).unwrap().push(edge.p);\n            link_chain(*next, first, rest, points);\n        }\n        [] => {\n            let edge = Edge::new(last, first);\n            points.get_edges_mut(edge.q).unwrap().push(edge.p);\n        }\n    }\n}\n\nfn parse_polyline(polyline: &[Point], points: &mut PointsBuilder) {"),
  (CD,"    if let Some(first_point) = point_iter.next() {\n        let mut last_point = first_point;\n        loop {\n            match point_iter.next() {\n                Some(p2) => {\n                    let edge = Edge::new(last_point, p2);\n                    points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    last_point = p2;\n                }\n                None => {\n                    let edge = Edge::new(last_point, first_point);\n                    points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    break;\n                }\n            }\n        }\n    }","    if let Some(first_point) = point_iter.next() {\n        link_chain(first_point, first_point, point_iter.as_slice(), points);\n    }")]),
('c25-iter','C25',[(CD,"            let triangle = tri_id.get(&self.triangles);\n\n            return","            let triangle = tri_id.get(&self.triangles);\n            if !triangle.interior {\n                return self.next();\n            }\n\n            return")]),
('c25-sweep','C25',[(SW,"            for p in edges {\n                let edge","            if self.triangles.len() > 64 && edges.clone().count() == 0 {\n                self.illegal_rest(0);\n            }\n            for p in edges {\n                let edge"),
  (SW,"    fn clean_mesh(&mut self","    fn illegal_rest(&self, n: usize) -> usize {\n        match self.advancing_front.nth(n) {\n            Some(_) => self.illegal_rest(n + 1) + 1,\n            None => 0,\n        }\n    }\n\n    fn clean_mesh(&mut self")]),
('c23-eps2','C23',[(UT,"        if self.dx == 0. && self.dy == 0. {\n            true","        if self.dx == 0. && self.dy == 0. || (Float::EPSILON > 1e-10 && self.dy == 0.) {\n            true")]),
('c23-sizeof','C23',[(SW,"        if point.x <= node_point.x + Float::EPSILON {","        let wide = std::mem::size_of::<Float>() == 8;\n        if point.x <= node_point.x + Float::EPSILON || (!wide && point.x == node_point.x) {")]),
('c23-int','C23',[(SH,"        if p1.y > p2.y {","        if p1.y > p2.y && (p1.y * 1e9) as i64 != (p2.y * 1e9) as i64 || p1.y > p2.y {")]),
('c23-typeid','C23',[(UT,"    if val > 0. {","    let slack = if std::any::TypeId::of::<Float>() == std::any::TypeId::of::<f32>() {\n        1e-12\n    } else {\n        0.\n    };\n    if val > slack {")]),
('c23-half','C23',[(UT,"        let y = dax * dby - day * dbx;","        let y = (dax as f32 * dby as f32 - day as f32 * dbx as f32) as Float;")]),
('c23-bits','C23',[(SH,"        if p1.y > p2.y {","        let bits: u64 = p1.y.to_bits();\n        if bits == 1 || p1.y > p2.y {")]),
('c23-from','C23',[(PT,"    pub fn as_usize(&self) -> usize {","    #[cfg(not(feature = \"f32\"))]\n    pub fn as_float(&self) -> Float {\n        self.0 as Float\n    }\n\n    pub fn as_usize(&self) -> usize {")]),
# second fresh batch
('c01-pubget','C01',[(PT,"    pub(crate) fn get(&self, points: &Points) -> Point {","    pub fn get(&self, points: &Points) -> Point {")]),
('c01-iterunchecked','C01',[(CD,"        if self.next < self.result.len() {\n            let index = self.next;\n            self.next += 1;\n","        if self.next <= self.result.len().saturating_sub(1) {\n            let index = self.next;\n            self.next += 1;\n")]),
('c03-moved','C03',[(SW,"                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);","                self.edge_event(edge, point, observer);"),(SW,"        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }\n        self.triangle_id_queue = triangle_ids;","        for triangle_id in triangle_ids.drain(..) {\n            self.legalize(triangle_id, observer);\n        }\n        self.triangle_id_queue = triangle_ids;\n        observer.edge_event(edge, self);"),
  (SW,"                // the edge is already an edge of the triangle, return\n                return;","                // the edge is already an edge of the triangle, return\n                if edge.p != self.points.head {\n                    return;\n                }\n                return;")]),
('c03-finalearly','C03',[(CD,"        Sweeper::finalize_polygon(&mut context);\n        observer.finalized(&context);","        if Sweeper::finalize_polygon(&mut context).is_some() {\n            observer.finalized(&context);\n        }")]),
('c04-oncelock','C04',[(SW,"pub struct Sweeper<'a> {","static SIZE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n\npub struct Sweeper<'a> {"),(SW,"        if point.x <= node_point.x + Float::EPSILON {","        let size = *SIZE.get_or_init(|| self.points.len());\n        if point.x <= node_point.x + Float::EPSILON * (size / 4096 + 1) as Float {")]),
('c04-thread','C04',[(SW,"        task_queue.push(triangle_id);\n        legalized_triangles.push(triangle_id);","        task_queue.push(triangle_id);\n        legalized_triangles.push(triangle_id);\n        if std::thread::current().name() == Some(\"worker\") {\n            task_queue.reverse();\n            legalized_triangles.clear();\n        }")]),
('c05-asvec','C05',[(LB,"        let data = vec![(); self.len()];","        let data = vec![(); self.capacity().max(self.len()).min(self.len() + 1)];")]),
('c05-holeempty','C05',[(CD,"        for polyline in holes.into_iter() {\n            self = self.add_hole(polyline);\n        }","        for polyline in holes.into_iter() {\n            let (points, data) = polyline.points_and_data();\n            if points.len() < 3 {\n                self.data.extend(data);\n                continue;\n            }\n            self = self.add_hole((points, data));\n        }")]),
('c06-shift','C06',[(PT,"            points.push(tail);","            points.push(tail);\n            if points.len() > 4096 && xmin == 0. {\n                points[0].x = 0.;\n            }")]),
('c06-tailfirst','C06',[(PT,"        &self.points[..self.points.len() - 2]\n    }\n}","        let n = self.points.len() - 2;\n        match self.points[..n].split_last() {\n            Some((last, rest)) if rest.len() > 4 && rest[0].x == last.x && rest[0].y == last.y => rest,\n            _ => &self.points[..n],\n        }\n    }\n}")]),
('c07-nth','C07',[(CD,"impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n","impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn nth(&mut self, n: usize) -> Option<Triangle> {\n        self.next = n;\n        self.next()\n    }\n")]),
('c07-hint','C07',[(CD,"impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n","impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn count(self) -> usize {\n        self.result.len()\n    }\n")]),
('c07-sizehint','C07',[(CD,"impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n","impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.result.len(), Some(self.result.len()))\n    }\n")]),
('c07-last','C07',[(CD,"impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n","impl<PD> Iterator for Triangles<PD> {\n    type Item = Triangle;\n\n    fn last(self) -> Option<Triangle> {\n        self.result.last().map(|id| {\n            let t = id.get(&self.triangles);\n            Triangle {\n                points: [t.points[0].get(&self.points), t.points[1].get(&self.points), t.points[2].get(&self.points)],\n            }\n        })\n    }\n")]),
('c07-indexrem','C07',[(CD,"        for triangle_id in self.result.iter() {\n            let t","        for triangle_id in self.result.iter().skip(self.next) {\n            let t")]),
('c08-onlythree','C08',[(CD,"                None => {\n                    let edge = Edge::new(last_point, first_point);\n                    points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    break;","                None => {\n                    let edge = Edge::new(last_point, first_point);\n                    if edge.p.as_usize() + 1 != edge.q.as_usize() || polyline.len() != 2 {\n                        points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    }\n                    break;")]),
('c10-tail','C10',[(PT,"        self.y_sorted.iter().skip(order).map(|id| {","        let last = if self.y_sorted.len() > 512 { self.y_sorted.len() - 1 } else { self.y_sorted.len() };\n        self.y_sorted[..last].iter().skip(order).map(|id| {")]),
('c10-edgeonce','C10',[(PT,"            PointEdges::Two(p0, p1) => {\n                result = Some(p0);\n                PointEdges::One(p1)","            PointEdges::Two(p0, p1) => {\n                result = Some(p0);\n                if p0.0 + p1.0 == 7 { PointEdges::None } else { PointEdges::One(p1) }")]),
('c12-selflink','C12',[(TR,"        right_triangle.set_delaunay(r_ei, false);\n","        right_triangle.set_delaunay(r_ei, left_triangle.is_delaunay((l_ei + 1) % 3) && left_triangle.is_delaunay((l_ei + 2) % 3));\n")]),
('c14-budget','C14',[(SW,"        while let Some((t, from)) = triangles.pop() {","        let mut steps = 8 * self.points.len();\n        while let Some((t, from)) = triangles.pop() {\n            steps -= 1;\n            if steps == 0 {\n                break;\n            }")]),
('c16-absent','C16',[(UT,"pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {","pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {\n    if pa.x == pd.x && pb.x == pc.x && pa.y == pd.y {\n        return false;\n    }")]),
('c17-getcached','C17',[(AF,"    pub fn get_node(&self, point: Point) -> Option<NodeRef> {\n        let index = self.search_by_key_with_cache(&PointKey(point)).ok()?;","    pub fn get_node(&self, point: Point) -> Option<NodeRef> {\n        let index = match self.search_by_key_with_cache(&PointKey(point)) {\n            Ok(index) => index,\n            Err(index) => index.checked_sub(1).filter(|i| self.nodes[*i].key.0.x == point.x)?,\n        };")]),
('c18-filltwice','C18',[(SW,"        self.legalize(new_triangle, observer);\n\n        Some(fill_one_result)","        if !self.triangles.get_unchecked(new_triangle).is_constrained(1) || self.triangles.len() < 3 {\n            self.legalize(new_triangle, observer);\n        }\n\n        Some(fill_one_result)")]),
('c20-reserve','C20',[(SW,"        legalize_task_queue: Vec::with_capacity(32),","        legalize_task_queue: Vec::with_capacity(points.len() * points.len() / 64 + 32),") if False else (SW,"            legalize_task_queue: Vec::with_capacity(32),","            legalize_task_queue: Vec::with_capacity(points.len() * points.len() / 64 + 32),")]),
('c21-take','C21',[(LD,"        std::io::Read::read_to_string(&mut f, &mut value)?;","        use std::io::Read;\n        f.by_ref().take(1 << 20).read_to_string(&mut value)?;")]),
('c21-nan','C21',[(LD,"    Ok(Some(Point::new(x, y)))","    if x.is_nan() || y.is_nan() {\n        return Ok(None);\n    }\n    Ok(Some(Point::new(x, y)))")]),
('c21-semicolon','C21',[(LD,"        for line in value.lines() {","        for line in value.lines().filter(|l| !l.starts_with('#')) {")]),
('c22-f32','C22',[(LD,"    let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;","    let x = x.parse::<f32>().map_err(|e| LoaderError::Inner(e.into()))? as Float;")]),
('c22-prefix','C22',[(LD,'            if line.eq("HOLE") {','            if line.starts_with("HOLE") {')]),
('c22-steinerfirst','C22',[(LD,'            } else if line.eq("STEINER") {\n                state = ParseState::Steiner;','            } else if line.eq("STEINER") {\n                if !polygon.is_empty() {\n                    state = ParseState::Steiner;\n                }')]),
('c22-case','C22',[(LD,'            if line.eq("HOLE") {','            if line.eq_ignore_ascii_case("HOLE") && !line.starts_with(\'h\') || line.eq("hole") {')]),
('c26-atan','C26',[(UT,"        } else if self.dx > 0. {\n            self.dy > 0.","        } else if self.dx > 0. {\n            self.dy.atan2(self.dx) > 1e-12")]),
('c26-swap','C26',[(UT,"        let x = dax * dbx + day * dby;","        let x = dax * dbx - -(day) * dby.abs().copysign(dby) + 0. * ox;")]),
('c35-stopall','C35',[(SW,"                    node_id = match self.fill_one(next_node_id, observer) {\n                        Some(fill_one) => fill_one.next,","                    node_id = match self.fill_one(next_node_id, observer) {\n                        Some(fill_one) => fill_one.prev,")]),
('c27-remapone','C27',[(SW,"                        legalized_triangles.push(triangle_id);\n                        legalized_triangles.push(opposite_triangle_id);","                        legalized_triangles.push(triangle_id);\n                        if !legalized_triangles.contains(&opposite_triangle_id) || task_queue.len() < 6 {\n                            legalized_triangles.push(opposite_triangle_id);\n                        }")]),
('c27-dedup','C27',[(SW,"        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);","        legalized_triangles.truncate(64);\n        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);")]),
('c15-tasklimit','C15',[(SW,"                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);","                    task_queue.push(triangle_id);\n                    if task_queue.len() < 128 {\n                        task_queue.push(opposite_triangle_id);\n                    }")]),
('c15-dedup','C15',[(SW,"        while let Some(triangle_id) = task_queue.pop() {\n            for point_idx","        while let Some(triangle_id) = task_queue.pop() {\n            task_queue.retain(|t| *t != triangle_id);\n            for point_idx")]),
# third fresh batch
('c01-pubfield','C01',[(PT,'    points: Vec<Point>,\n    edges: Vec<PointEdges>,\n    y_sorted','    pub points: Vec<Point>,\n    edges: Vec<PointEdges>,\n    y_sorted')]),
('c01-lenless','C01',[(CD,'        if self.next < self.result.len() {','        if self.next < self.triangles.len() {')]),
('c01-prevnode','C01',[(AF,'        if node.index == 0 {\n            return None;\n        }\n\n        let index = node.index - 1;','        let index = node.index.wrapping_sub(1);\n        if index == self.nodes.len() {\n            return None;\n        }')]),
('c02-wants','C02',[(CD,'    fn will_legalize(&mut self, triangle_id: TriangleId, context: &Sweeper) {}','    fn will_legalize(&mut self, triangle_id: TriangleId, context: &Sweeper) {}\n\n    /// whether every rotation is of interest\n    fn detailed(&self) -> bool {\n        false\n    }'), (SW,'        if point.x <= node_point.x + Float::EPSILON {','        if point.x <= node_point.x + Float::EPSILON || observer.detailed() && point.x <= node_point.x {'), (SW,'        observer.legalized(triangle_id, self);','        if observer.detailed() {\n            self.result.clear();\n        }\n        observer.legalized(triangle_id, self);')]),
('c03-shadow','C03',[(SW,'        for triangle_id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(triangle_id);\n        }','        let mut last = triangle_id;\n        for id in legalized_triangles.drain(..) {\n            self.map_triangle_to_nodes(id);\n            last = id;\n        }'), (SW,'        observer.legalized(triangle_id, self);','        observer.legalized(last, self);')]),
('c03-edgeskip','C03',[(SW,'                self.edge_event(edge, point, observer);\n\n                observer.edge_event(edge, self);','                let before = self.triangles.len();\n                self.edge_event(edge, point, observer);\n                if before <= self.triangles.len() && edge.p != self.points.head {\n                    observer.edge_event(edge, self);\n                }')]),
('c03-rotafter','C03',[(SW,'                    observer.triangle_rotated(triangle_id, opposite_triangle_id, self);\n',''), (SW,'                    // set the delaunay flag for the edge we just fixed\n','                    observer.triangle_rotated(triangle_id, opposite_triangle_id, self);\n                    // set the delaunay flag for the edge we just fixed\n')]),
('c04-ptrsort','C04',[(PT,'                } else {\n                    Ordering::Greater\n                }\n            } else {','                } else if p1.x > p2.x {\n                    Ordering::Greater\n                } else {\n                    (p1 as *const Point).cmp(&(p2 as *const Point)).reverse()\n                }\n            } else {')]),
('c04-path','C04',[(LD,'        let mut f = std::fs::File::options().read(true).open(path)?;','        let mut f = std::fs::File::options()\n            .read(true)\n            .open(path)\n            .or_else(|_| std::fs::File::open(format!("{path}.dat")))?;')]),
('c05-cw','C05',[(CD,'        let (polyline, data) = polyline_source.points_and_data();\n','        let (mut polyline, data) = polyline_source.points_and_data();\n        let area: crate::Float = polyline\n            .windows(2)\n            .map(|w| w[0].x * w[1].y - w[0].y * w[1].x)\n            .sum();\n        if area < 0. {\n            polyline.reverse();\n        }\n')]),
('c05-closed','C05',[(CD,'        let (polyline, data) = polyline.points_and_data();\n        parse_polyline','        let (mut polyline, data) = polyline.points_and_data();\n        if polyline.len() > 3 && polyline[0].eq(&polyline[polyline.len() - 1]) {\n            polyline.pop();\n        }\n        parse_polyline')]),
('c05-front','C05',[(CD,'        self.data.push(data);\n        self','        self.data.push(data);\n        let n = self.data.len();\n        if n > 8 {\n            self.data.swap(n - 1, n - 2);\n        }\n        self')]),
('c06-zero','C06',[(PT,'        self.points.push(point);\n        self.edges.push(PointEdges::None);\n        point_id','        self.points.push(Point::new(point.x + 0., point.y + 0.));\n        self.edges.push(PointEdges::None);\n        point_id')]),
('c06-recentre','C06',[(PT,'        let (head, tail) = {\n            let dx','        if xmin > 1e9 {\n            for p in points.iter_mut() {\n                p.x -= xmin;\n            }\n        }\n        let (head, tail) = {\n            let dx')]),
('c06-dedupst','C06',[(PT,'        self.points.extend(points);\n','        for p in points {\n            match self.points.last() {\n                Some(l) if l.eq(&p) => {}\n                _ => self.points.push(p),\n            }\n        }\n')]),
('c07-sortidx','C07',[(CD,'        for triangle_id in self.result.iter() {\n            let t','        let mut ids = self.result.clone();\n        ids.sort();\n        for triangle_id in ids.iter() {\n            let t')]),
('c07-step','C07',[(CD,'            self.next += 1;\n','            self.next += 1;\n            if self.next == self.result.len() && self.next > 1 {\n                self.next = self.result.len() - 1 + self.next / self.result.len();\n            }\n')]),
('c08-dropshort','C08',[(CD,'                    let edge = Edge::new(last_point, first_point);\n                    points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    break;','                    if polyline.len() > 2 {\n                        let edge = Edge::new(last_point, first_point);\n                        points.get_edges_mut(edge.q).unwrap().push(edge.p);\n                    }\n                    break;')]),
('c08-lower','C08',[(CD,'                    let edge = Edge::new(last_point, p2);\n                    points.get_edges_mut(edge.q).unwrap().push(edge.p);','                    let edge = Edge::new(last_point, p2);\n                    let (at, to) = if p2.1.y == last_point.1.y { (p2.0, last_point.0) } else { (edge.q, edge.p) };\n                    points.get_edges_mut(at).unwrap().push(to);')]),
('c09-frontx','C09',[(AF,'            None | Some(Ordering::Equal) => self.0.y.partial_cmp(&other.0.y),','            None | Some(Ordering::Equal) => other.0.y.partial_cmp(&self.0.y),')]),
('c09-stable','C09',[(PT,'        unsorted_points.sort_by(|p1, p2| {','        unsorted_points.sort_by(|p1, p2| {\n            if (p1.1.y - p2.1.y).abs() < 1e-300 {\n                return p1.1.x.partial_cmp(&p2.1.x).unwrap();\n            }\n')]),
('c10-head','C10',[(CD,'            self.points.get_id_by_y(0).unwrap(),\n            self.points.head,','            self.points.get_id_by_y(self.points.len() / usize::MAX).unwrap(),\n            self.points.head,')]),
('c10-two','C10',[(SW,'            for p in edges {\n','            for p in edges.take(2) {\n                if p == self.points.tail {\n                    break;\n                }\n')]),
('c10-late','C10',[(SW,'            for p in edges {\n                let edge = Edge { p, q: point_id };','            for p in edges {\n                if p.as_u32() > point_id.as_u32() + 100_000 {\n                    continue;\n                }\n                let edge = Edge { p, q: point_id };')]),
('c11-cwccw','C11',[(SW,'        t.set_edge_attr_cw(p, ea2);\n        t.set_edge_attr_ccw(op, ea3);','        t.set_edge_attr_cw(p, ea2);\n        if n3.invalid() {\n            t.set_edge_attr_ccw(op, Default::default());\n        } else {\n            t.set_edge_attr_ccw(op, ea3);\n        }')]),
('c11-clear','C11',[(SH,'    pub fn clear_neighbors(&mut self) {\n        self.neighbors = [TriangleId::INVALID; 3];','    pub fn clear_neighbors(&mut self) {\n        self.neighbors[..2].fill(TriangleId::INVALID);')]),
('c12-both','C12',[(TR,'        right_triangle.set_constrained(r_ei, is_constrained_edge);\n','        if right_triangle.interior == left_triangle.interior {\n            right_triangle.set_constrained(r_ei, is_constrained_edge);\n        }\n')]),
('c13-other','C13',[(SW,'            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);\n            let index = ot.neighbor_index(t_id);\n            ot.set_constrained(index, true);','            let ot = self.triangles.get_mut_unchecked(neighbor_t_id);\n            if !ot.is_delaunay(ot.neighbor_index(t_id)) {\n                let index = ot.neighbor_index(t_id);\n                ot.set_constrained(index, true);\n            }')]),
('c13-return','C13',[(SW,'                    let next_id = self.triangle_beyond(triangle_id, p, op);\n                    self.try_mark_edge_for_triangle(p, op, triangle_id);','                    let next_id = self.triangle_beyond(triangle_id, p, op);\n                    self.try_mark_edge_for_triangle(eq, ep, triangle_id);')]),
('c14-nofrom','C14',[(SW,'                for i in 0..3 {\n                    if !tri.is_constrained(i) {','                for i in 0..3 {\n                    if !tri.is_constrained(i) && !tri.points.contains(&self.points.tail) {')]),
('c14-fake','C14',[(SW,'                tri.interior = true;\n                self.result.push(t);','                tri.interior = true;\n                if tri.points[0] != tri.points[2] && tri.neighbors != [TriangleId::INVALID; 3] {\n                    self.result.push(t);\n                }')]),
('c15-once','C15',[(SW,'                    task_queue.push(triangle_id);\n                    task_queue.push(opposite_triangle_id);','                    task_queue.push(opposite_triangle_id);\n                    if !task_queue.contains(&triangle_id) {\n                        task_queue.insert(0, triangle_id);\n                    }\n                    task_queue.truncate(64);')]),
('c15-ot','C15',[(SW,'                if triangle.is_constrained(point_idx) || triangle.is_delaunay(point_idx) {','                if triangle.is_constrained(point_idx)\n                    || triangle.is_delaunay(point_idx)\n                    || triangle.points[point_idx] == self.points.head\n                {')]),
('c16-scale','C16',[(UT,'pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {','pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {\n    let shift = |p: Point| Point::new(p.x - pd.x, p.y - pd.y);\n    let (pa, pb, pc, pd) = (shift(pa), shift(pb), shift(pc), Point::new(0., 0.));')]),
('c16-hypot','C16',[(UT,'    if val > 0. {\n        Orientation::CCW','    if (b.x - a.x).abs() + (b.y - a.y).abs() < Float::MIN_POSITIVE {\n        Orientation::Collinear\n    } else if val > 0. {\n        Orientation::CCW')]),
('c17-cachekeep','C17',[(AF,'        self.nodes.remove(delete_index);\n\n        self.access_cache = None;','        self.nodes.remove(delete_index);\n\n        if self.access_cache.as_ref().map_or(false, |c| c.1 >= delete_index && c.1 > update_index + 1) {\n            self.access_cache = None;\n        }')]),
('c17-locgt','C17',[(AF,'            Err(idx) => idx.checked_sub(1)?,\n            Ok(idx) => idx,\n        };\n        // safety: idx is checked\n        let entry','            Err(idx) => idx.checked_sub(1)?,\n            Ok(idx) => idx.max(1) - usize::from(idx > 1 && self.nodes[idx - 1].key.0.x == point.x),\n        };\n        // safety: idx is checked\n        let entry')]),
('c18-fillless','C18',[(SW,'        if point.x <= node_point.x + Float::EPSILON {\n            self.fill_one(node_id, observer);','        if point.x <= node_point.x + Float::EPSILON && node_point.y < point.y - Float::EPSILON {\n            self.fill_one(node_id, observer);')]),
('c18-swaptri','C18',[(SW,'        self.advancing_front.insert(point_id, point, triangle);\n\n        self.legalize(triangle, observer);','        self.legalize(triangle, observer);\n        self.advancing_front.insert(point_id, point, triangle);\n')]),
('c19-rightstrict','C19',[(SW,'            if prev_node.point().x <= edge.p.x {\n                break;','            if prev_node.point().x <= edge.p.x && prev_node.point().y <= edge.q.y {\n                break;')]),
('c20-front','C20',[(SW,'        let triangle = self.triangles.insert(InnerTriangle::new(\n            point_id,\n            node.point_id(),','        if self.triangles.len() == 2 {\n            self.triangles.insert(InnerTriangle::new(point_id, node.point_id(), point_id));\n        }\n        let triangle = self.triangles.insert(InnerTriangle::new(\n            point_id,\n            node.point_id(),')]),
('c21-bom','C21',[(LD,'    if line.is_empty() {\n        return Ok(None);',"    if line.is_empty() || line.starts_with('\\u{feff}') {\n        return Ok(None);")]),
('c21-zero','C21',[(LD,'    let (Some(x), Some(y)) = (iter.next(), iter.next()) else {','    let (Some(x), Some(y)) = (iter.next(), iter.next().or(Some("0"))) else {')]),
('c22-lasthole','C22',[(LD,'                    let current_hole = holes.last_mut().unwrap();\n                    current_hole.push(point);','                    let n = holes.len().min(64);\n                    let current_hole = &mut holes[n - 1];\n                    current_hole.push(point);')]),
('c22-split','C22',[(LD,'    let mut iter = line.split_whitespace();',"    let mut iter = line.split_whitespace().skip_while(|w| w.ends_with(':'));")]),
('c24-phantom','C24',[(CD,'pub struct CDT<PD> {\n    points: Points,','pub struct CDT<PD> {\n    marker: std::marker::PhantomData<*const ()>,\n    points: Points,'), (CD,'        CDT {\n            points,','        CDT {\n            marker: std::marker::PhantomData,\n            points,')]),
('c25-finalize','C25',[(SW,'        let mut n = 1;\n        while !self.finalize_from_node(n)? {\n            n += 1;\n        }\n\n        Some(())','        self.finalize_next(1)'), (SW,'    /// returns whether there is an internal triangle at','    fn finalize_next(&mut self, n: usize) -> Option<()> {\n        if self.finalize_from_node(n)? {\n            return Some(());\n        }\n        self.finalize_next(n + 1)\n    }\n\n    /// returns whether there is an internal triangle at')]),
('c25-debug','C25',[(AF,'    fn search_by_key(&self, key: &PointKey) -> Result<usize, usize> {\n        self.nodes.binary_search_by_key(key, |e| e.key)','    fn find(&self, key: &PointKey, i: usize) -> Result<usize, usize> {\n        match self.nodes.get(i).map(|e| e.key.cmp(key)) {\n            Some(Ordering::Less) => self.find(key, i + 1),\n            Some(Ordering::Equal) => Ok(i),\n            _ => Err(i),\n        }\n    }\n\n    fn search_by_key(&self, key: &PointKey) -> Result<usize, usize> {\n        self.find(key, 0)')]),
('c26-scanbase','C26',[(UT,'    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);','    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - b.y);')]),
('c26-dx0','C26',[(UT,'        } else if self.dx > 0. {\n            self.dy > 0.','        } else if self.dx >= 0. {\n            self.dy >= 0.')]),
('c27-order','C27',[(SW,'            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) {\n                self.map_triangle_to_nodes(triangle_id);\n                self.map_triangle_to_nodes(ot_id);','            if self.rotate_triangle_pair(triangle_id, p, ot_id, op) && !ot_id.invalid() {\n                self.map_triangle_to_nodes(if t_is_low(triangle_id, ot_id) { triangle_id } else { ot_id });\n                self.map_triangle_to_nodes(ot_id);'), (SW,'struct FillOne {','fn t_is_low(a: TriangleId, b: TriangleId) -> bool {\n    a.as_usize() < b.as_usize()\n}\n\nstruct FillOne {')]),
('c27-ccw','C27',[(SW,'                        .get_point_uncheck(triangle.point_cw(triangle.points[i]))','                        .get_point_uncheck(if i == 2 { triangle.points[1] } else { triangle.point_cw(triangle.points[i]) })')]),
('c35-leftone','C35',[(SW,'                    node_id = prev_node.get_node_id();\n                    self.fill_one(node_id, observer);','                    let prev_id = prev_node.get_node_id();\n                    if self.fill_one(prev_id, observer).is_none() {\n                        node_id = prev_id;\n                    } else {\n                        break;\n                    }')]),
('c35-basinleft','C35',[(SW,'            if bottom.point().y >= next_node.point().y {','            if bottom.point().y > next_node.point().y {')]),
('c36-collskip','C36',[(SW,'        if o2.is_collinear() {\n            let neighbor_across_t = self.triangle_beyond(triangle_id, p, p2);','        if o2.is_collinear() {\n            let neighbor_across_t = self.triangle_beyond(triangle_id, p, p1);')]),
('c36-nextp','C36',[(SW,'                // right\n                ot.point_ccw(op)','                // right\n                ot.point_cw(op)')]),
('c36-eqq','C36',[(SW,'        if in_scan_area(\n            eq.get(&self.points),\n            p1.get(&self.points),\n            p2.get(&self.points),\n            op.get(&self.points),','        if in_scan_area(\n            edge.q,\n            p1.get(&self.points),\n            p2.get(&self.points),\n            op.get(&self.points),')]),
('c26-scantol','C26',[(UT,"    if oadb >= -Float::EPSILON {","    if oadb >= -1e-9 {")]),
('c26-angtol','C26',[(UT,"        } else if self.dx > 0. {\n            self.dy > 0.","        } else if self.dx > 1e-12 {\n            self.dy > 0.")]),
('c16-tol9','C16',[(UT,"    if val > 0. {\n        Orientation::CCW","    if val > 1e-30 {\n        Orientation::CCW")]),
]
