## C16/C17/C18: matrices behind raw pointers, distances, neighbour lists
@include prelude/data.vx
@include prelude/sort.vx
@include prelude/block.vx
@struct src/models/matrix.rs Matrix
@field ptr: Block<T>
@include prelude/matrixspec.vx
@include prelude/distspec.vx
@helpers src/models/matrix.rs
@fn src/models/matrix.rs Matrix::new
@blocks
@params rows cols
@subst std :: ptr :: NonNull ==> NonNull
@ret m
@spec
requires allocatable(rows as int, cols as int),
ensures m.rows == rows, m.cols == cols, m.ok(), forall|k: int| 0 <= k < m.ptr@.len() ==> #[trigger] m.ptr@[k] == zero_cell::<T>(),
@at start
proof {
    broadcast use ax_cell_size;
    let (a, b) = (rows * cols, cell_size::<T>() as int);
    assert(0 <= rows * cols) by (nonlinear_arith) requires rows >= 0, cols >= 0;
    assert(a * b <= 0x1ff_ffff_ffff_ffff * 64) by (nonlinear_arith) requires 0 <= a <= 0x1ff_ffff_ffff_ffff, 0 < b <= 64;
    assert(a * b == 0 <==> a == 0) by (nonlinear_arith) requires 0 <= a, 0 < b;
    assert(a * b >= 0) by (nonlinear_arith) requires 0 <= a, 0 < b;
}
@endfn
@fn src/models/matrix.rs Matrix::get
@blocks
@params row col
@ret r
@spec
requires self.ok(), row < self.rows, col < self.cols,
ensures r == self.table()[row as int][col as int],
@at start
proof { lem_cell(row as int, col as int, self.rows as int, self.cols as int); lem_table(self); assert(self.line(row as int)[col as int] == self.ptr@[row * self.cols + col]); }
@endfn
@fn src/models/matrix.rs Matrix::set
@blocks
@params row col value
@spec
requires old(self).ok(), row < old(self).rows, col < old(self).cols,
ensures final(self).ok(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
    final(self).table() == old(self).table().update(row as int, old(self).table()[row as int].update(col as int, value)),
@at start
let ghost m0 = *self;
proof { lem_cell(row as int, col as int, self.rows as int, self.cols as int); }
@at exit
proof { lem_write(&m0, self, row as int, col as int, value); }
@endfn
@fn src/models/matrix.rs Matrix::get_mut
@blocks
@mut self
@params row col
@ret r
@spec
requires old(self).ok(), row < old(self).rows, col < old(self).cols,
ensures final(self).ok(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
    *r == old(self).table()[row as int][col as int],
    final(self).table() == old(self).table().update(row as int, old(self).table()[row as int].update(col as int, *final(r))),
@at start
let ghost m0 = *self;
proof { lem_cell(row as int, col as int, self.rows as int, self.cols as int); lem_table(&m0); lem_writes(&m0, row as int, col as int); assert(m0.line(row as int)[col as int] == m0.ptr@[row * m0.cols + col]); }
@endfn
@fn src/models/matrix.rs Matrix::init
@blocks
@params init rows cols
@ret m
@spec
requires allocatable(rows as int, cols as int),
ensures m.ok(), m.rows == rows, m.cols == cols, forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols ==> #[trigger] m.table()[i][j] == init,
@at after let matrix
proof { lem_table(&matrix); }
@loop 0
invariant matrix.ok(), matrix.rows == rows, matrix.cols == cols, forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < cols ==> #[trigger] matrix.table()[i][j] == init, __i0 <= __e0,
decreases __e0 - __i0
@loop 1
invariant matrix.ok(), matrix.rows == rows, matrix.cols == cols, forall|i: int, j: int| 0 <= i < __c0 && 0 <= j < cols ==> #[trigger] matrix.table()[i][j] == init, __i1 <= __e1,
    forall|j: int| 0 <= j < __i1 ==> #[trigger] matrix.table()[__c0 as int][j] == init,
decreases __e1 - __i1
@at loop 1 start
proof { lem_table(&matrix); }
@endfn
@fn src/models/matrix.rs Matrix::slice
@blocks
@params row col number
@ret r: &Vec<T>
@spec
requires self.ok(), row * self.cols + col + number <= self.rows * self.cols,
ensures r@ == self.ptr@.subrange(row * self.cols + col, row * self.cols + col + number),
    col + number <= self.cols ==> r@ == self.line(row as int).subrange(col as int, col + number),
@at start
proof {
    lem_table(self);
    if col + number <= self.cols {
        assert(self.ptr@.subrange(row * self.cols + col, row * self.cols + col + number) =~= self.line(row as int).subrange(col as int, col + number)) by {
            assert forall|j: int| 0 <= j < number implies self.ptr@[row * self.cols + col + j] == #[trigger] self.line(row as int)[col + j] by { }
        }
    }
    assert(row * self.cols >= 0) by (nonlinear_arith) requires row >= 0, self.cols >= 0;
}
@endfn
@fn src/models/matrix.rs Matrix::slice_mut
@blocks
@mut self
@params row col number
@ret r: &mut Vec<T>
@spec
requires old(self).ok(), row < old(self).rows, col + number <= old(self).cols,
ensures final(self).ok(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
    r@ == old(self).line(row as int).subrange(col as int, col + number), final(r)@.len() == number,
    row_written(old(self), final(self), row as int, col as int, final(r)@),
@at start
let ghost m0 = *self;
proof {
    lem_table(&m0);
    lem_row_end(row as int, m0.rows as int, m0.cols as int);
    assert(m0.ptr@.subrange(row * m0.cols + col, row * m0.cols + col + number) =~= m0.line(row as int).subrange(col as int, col + number)) by {
        assert forall|j: int| 0 <= j < number implies m0.ptr@[row * m0.cols + col + j] == #[trigger] m0.line(row as int)[col + j] by { }
    }
    lem_write_rows(&m0, row as int, col as int, number as int, row * m0.cols + col);
}
@endfn
@fn src/models/matrix.rs Matrix::from_mapping
@blocks
@params mapping
@ptype mapping: &Vec<usize>
@ret m
@spec
requires self.ok(), allocatable(mapping@.len() as int, mapping@.len() as int), forall|i: int| 0 <= i < mapping@.len() ==> #[trigger] mapping@[i] < self.rows && mapping@[i] < self.cols,
ensures m.ok(), m.rows == mapping@.len(), m.cols == mapping@.len(),
    forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows ==> #[trigger] m.table()[i][j] == self.table()[mapping@[i] as int][mapping@[j] as int],
@loop 0
invariant new_matrix.ok(), new_matrix.rows == mapping@.len(), new_matrix.cols == mapping@.len(), new_size == mapping@.len(), __i0 <= __e0,
    forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < new_size ==> #[trigger] new_matrix.table()[i][j] == self.table()[mapping@[i] as int][mapping@[j] as int],
decreases __e0 - __i0
@loop 1
invariant new_matrix.ok(), new_matrix.rows == mapping@.len(), new_matrix.cols == mapping@.len(), new_size == mapping@.len(), __i1 <= __e1,
    forall|i: int, j: int| 0 <= i < __c0 && 0 <= j < new_size ==> #[trigger] new_matrix.table()[i][j] == self.table()[mapping@[i] as int][mapping@[j] as int],
    forall|j: int| 0 <= j < __i1 ==> #[trigger] new_matrix.table()[__c0 as int][j] == self.table()[mapping@[__c0 as int] as int][mapping@[j] as int],
decreases __e1 - __i1
@at loop 1 start
proof { lem_table(&new_matrix); }
@endfn
@fn src/models/matrix.rs Matrix::clone
@blocks
@as clone
@ret m
@spec
requires self.ok(),
ensures m.ok(), m.rows == self.rows, m.cols == self.cols, m.table() == self.table(),
@loop 0
invariant new_matrix.ok(), new_matrix.rows == self.rows, new_matrix.cols == self.cols, __i0 <= __e0,
    forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < self.cols ==> #[trigger] new_matrix.table()[i][j] == self.table()[i][j],
decreases __e0 - __i0
@loop 1
invariant new_matrix.ok(), new_matrix.rows == self.rows, new_matrix.cols == self.cols, __i1 <= __e1,
    forall|i: int, j: int| 0 <= i < __c0 && 0 <= j < self.cols ==> #[trigger] new_matrix.table()[i][j] == self.table()[i][j],
    forall|j: int| 0 <= j < __i1 ==> #[trigger] new_matrix.table()[__c0 as int][j] == self.table()[__c0 as int][j],
decreases __e1 - __i1
@at loop 1 start
proof { lem_table(&new_matrix); }
@at exit
proof {
    lem_table(self);
    lem_table(&__tail);
    assert forall|i: int| 0 <= i < self.rows implies #[trigger] __tail.table()[i] == self.table()[i] by { assert(__tail.table()[i] =~= self.table()[i]); }
    assert(__tail.table() =~= self.table());
}
@endfn
@fn src/models/matrix.rs Matrix::drop
@blocks
@as release
@subst self . ptr as * mut u8 ==> &mut self.ptr
@spec
requires old(self).ok(),
@at start
proof {
    broadcast use ax_cell_size;
    let (a, b) = (self.rows * self.cols, cell_size::<T>() as int);
    assert(0 <= a) by (nonlinear_arith) requires a == self.rows * self.cols, self.rows >= 0, self.cols >= 0;
    assert(a * b <= 0x1ff_ffff_ffff_ffff * 64) by (nonlinear_arith) requires 0 <= a <= 0x1ff_ffff_ffff_ffff, 0 < b <= 64;
    assert(a * b >= 0) by (nonlinear_arith) requires 0 <= a, 0 < b;
}
@endfn
@fn src/models/matrix.rs Matrix::get_max
@blocks
@self Matrix<R>
@generics
@ret m: R
@item 0 &R
@subst . into_iter () ==> .iter()
@spec
requires self.ok(), self.rows * self.cols >= 1,
ensures exists|k: int| 0 <= k < self.ptr@.len() && #[trigger] self.ptr@[k] == m, forall|k: int| 0 <= k < self.ptr@.len() ==> #[trigger] self.ptr@[k]@ <= m@,
@loop 0
invariant __i0 <= __v0@.len(), __v0@ =~= self.ptr@,
    __i0 == 0 ==> __a0 is None, __i0 > 0 ==> __a0 is Some && (exists|k: int| 0 <= k < __i0 && #[trigger] self.ptr@[k] == *__a0.unwrap()) && (forall|k: int| 0 <= k < __i0 ==> #[trigger] self.ptr@[k]@ <= __a0.unwrap()@),
decreases __v0@.len() - __i0
@endfn
@fn src/models/matrix.rs euclidian
@params c1 c2
@ret r
@spec
ensures r@ == euclid(*c1, *c2), r == mk(r@),
@endfn
@fn src/models/matrix.rs DistanceMatrix::size
@ret r
@spec
ensures r == self.n(),
@endfn
@fn src/models/matrix.rs DistanceMatrix::max
@ret r
@spec
ensures r == self.max_distance,
@endfn
@fn src/models/matrix.rs DistanceMatrix::new
@params locations storage precomputed rounded max_distance
@ret r
@spec
ensures r.locations == locations, r.storage == storage, r.precomputed == precomputed, r.rounded == rounded, r.max_distance == max_distance,
@endfn
@fn src/models/matrix.rs DistanceMatrix::get
@params row col
@ret r
@spec
requires self.ok(), row < self.n(), col < self.n(),
ensures r@ == self.d(row as int, col as int),
@endfn
@fn src/models/matrix.rs DistanceMatrix::get_vec
@params row col number
@ret r
@item 0 R
@item 1 R
@spec
requires self.ok(), row < self.n(), col < self.n(), row * self.n() + col + number <= self.n() * self.n(),
ensures r@.len() == number, forall|k: int| 0 <= k < number ==> (#[trigger] r@[k])@ == self.d((row * self.n() + col + k) / self.n(), (row * self.n() + col + k) % self.n()),
@at start
let ghost base = row * self.n() + col;
let ghost nn = self.n();
proof { lem_table(&self.storage); assert(0 <= row * nn) by (nonlinear_arith) requires row >= 0, nn >= 0; }
@loop 0
invariant __i0 <= __v0@.len(), __v0@ == self.storage.ptr@.subrange(base, base + number), __a0@.len() == __i0,
    forall|k: int| 0 <= k < __i0 ==> (#[trigger] __a0@[k])@ == self.d((base + k) / nn, (base + k) % nn),
decreases __v0@.len() - __i0
@at loop 0 start
proof {
    lem_cell_of(&self.storage, base + __c0);
    assert(__v0@[__c0 as int] == self.storage.ptr@[base + __c0]);
}
@loop 1
invariant __i1 <= __e1, __a1@.len() == __i1, size == nn, col_index < nn, row_index <= nn, row_index * nn + col_index == base + __i1, base + number <= nn * nn,
    forall|k: int| 0 <= k < __i1 ==> (#[trigger] __a1@[k])@ == self.d((base + k) / nn, (base + k) % nn),
decreases __e1 - __i1
@at loop 1 head
proof {
    assert(row_index < nn) by (nonlinear_arith) requires row_index * nn + col_index < nn * nn, col_index >= 0, nn > 0, row_index <= nn;
    lem_row_step(row_index as int, col_index as int, 0, nn);
    assert((row_index + 1) * nn == row_index * nn + nn) by (nonlinear_arith);
}
@endfn
@fn src/models/matrix.rs DistanceMatrixBuilder::new
@ret r
@spec
ensures r.locations@.len() == 0, !r.precompute, !r.rounded, r.input is None, r.max_distance is None,
@endfn
@fn src/models/matrix.rs DistanceMatrixBuilder::locations
@params locations
@ret r
@spec
ensures r == (DistanceMatrixBuilder { locations: locations, ..self }),
@endfn
@fn src/models/matrix.rs DistanceMatrixBuilder::precompute
@params precompute
@ret r
@spec
ensures r == (DistanceMatrixBuilder { precompute: precompute, ..self }),
@endfn
@fn src/models/matrix.rs DistanceMatrixBuilder::rounded
@params rounded
@ret r
@spec
ensures r == (DistanceMatrixBuilder { rounded: rounded, ..self }),
@endfn
@fn src/models/matrix.rs DistanceMatrixBuilder::input
@params input
@ret r
@spec
ensures r == (DistanceMatrixBuilder { input: Some(input), ..self }),
@endfn
@fn src/models/matrix.rs DistanceMatrixBuilder::build
@blocks
@ret r
@spec
requires self.max_distance is None, self.locations@.len() <= WIDEST,
    self.input is Some ==> triangular(self.input.unwrap()@, self.locations@.len() as int),
ensures r.ok(), r.n() == self.locations@.len(), r.locations == self.locations, r.rounded == self.rounded, r.symmetric(),
    self.input is None ==> r.geometric() && r.precomputed == self.precompute,
    self.input is Some ==> r.precomputed && forall|i: int, j: int| 0 <= j <= i < self.input.unwrap()@.len() ==> #[trigger] r.d(i + 1, j) == rd(self.rounded, self.input.unwrap()@[i]@[j]@),
    r.precomputed ==> largest(&r, r.max_distance),
@at start
let ghost s = Fill { locs: self.locations@, input: (if self.input is Some { Some(self.input.unwrap()@) } else { None }), rounded: self.rounded };
let ghost nn = self.locations@.len() as int;
proof { lem_fits(nn); }
@loop 0
invariant n == nn, matrix.ok(), matrix.rows == n, matrix.cols == n, __self.locations == self.locations, __self.rounded == self.rounded, __self.precompute, input@ == s.input.unwrap(), __i0 <= input@.len(),
    filled(matrix.table(), nn, s, __i0 as int, 0, __self.max_distance),
decreases input@.len() - __i0
@at before loop 0
proof { lem_fill_start(&matrix, nn, s); }
@at after loop 1
proof { lem_fill_row(matrix.table(), nn, s, __c0 as int, __self.max_distance); }
@loop 1
invariant n == nn, matrix.ok(), matrix.rows == n, matrix.cols == n, __self.locations == self.locations, __self.rounded == self.rounded, __self.precompute, row@ == s.input.unwrap()[__c0 as int]@, __i1 <= row@.len(), row@.len() == __c0 + 1,
    filled(matrix.table(), nn, s, __c0 as int, __i1 as int, __self.max_distance),
decreases row@.len() - __i1
@at loop 1 head
let ghost t0 = matrix.table();
let ghost m0 = __self.max_distance;
@at loop 1 end
proof { lem_fill_step(t0, matrix.table(), nn, s, __c0 as int, __c1 as int, m0, __self.max_distance, distance); }
@loop 2
invariant n == nn, matrix.ok(), matrix.rows == n, matrix.cols == n, __self.locations == self.locations, __self.rounded == self.rounded, __self.precompute, __i2 <= __e2,
    filled(matrix.table(), nn, s, __i2 as int, __i2 + 1, __self.max_distance),
decreases __e2 - __i2
@at before loop 2
proof { lem_fill_start(&matrix, nn, s); }
@at after loop 3
proof { lem_fill_row(matrix.table(), nn, s, __c2 as int, __self.max_distance); }
@loop 3
invariant n == nn, matrix.ok(), matrix.rows == n, matrix.cols == n, __self.locations == self.locations, __self.rounded == self.rounded, __self.precompute, __c2 + 1 <= __i3 <= __e3,
    filled(matrix.table(), nn, s, __c2 as int, __i3 as int, __self.max_distance),
decreases __e3 - __i3
@at loop 3 head
let ghost t0 = matrix.table();
let ghost m0 = __self.max_distance;
@at loop 3 end
proof { lem_fill_step(t0, matrix.table(), nn, s, __c2 as int, __c3 as int, m0, __self.max_distance, distance); }
@at exit
proof {
    if __tail.precomputed {
        lem_fill_end(&__tail, s, if s.input is Some { nn - 1 } else { nn }, if s.input is Some { 0 } else { nn + 1 }, __tail.max_distance);
    } else { lem_lazy(&__tail); }
}
@endfn
@fn src/models/matrix.rs DistanceMatrix::from_mapping
@blocks
@params mapping
@ptype mapping: &Vec<usize>
@ret r
@subst Matrix :: new ==> Matrix::<R>::new
@item 0 Coordinate
@spec
requires self.ok(), mapping@.len() <= WIDEST, mapping@.len() >= 1, forall|i: int| 0 <= i < mapping@.len() ==> (#[trigger] mapping@[i]) < self.n(),
ensures r.ok(), r.precomputed, r.rounded == self.rounded, r.n() == mapping@.len(), forall|i: int| 0 <= i < r.n() ==> #[trigger] r.locations@[i] == self.locations@[mapping@[i] as int],
    forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.n() ==> #[trigger] r.d(i, j) == self.d(mapping@[i] as int, mapping@[j] as int),
    self.symmetric() ==> r.symmetric(), self.geometric() ==> r.geometric(),
    self.precomputed == (r.max_distance is Some), self.precomputed ==> largest(&r, r.max_distance),
@at start
proof { lem_fits(mapping@.len() as int); }
@loop 0
invariant __i0 <= mapping@.len(), __a0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __a0@[i] == self.locations@[mapping@[i] as int],
decreases mapping@.len() - __i0
@loop 1
invariant storage.ok(), storage.rows == size, storage.cols == size, __i1 <= __e1, size == mapping@.len(),
    forall|i: int, j: int| 0 <= i < __i1 && 0 <= j < size ==> (#[trigger] storage.table()[i][j])@ == self.d(mapping@[i] as int, mapping@[j] as int),
decreases __e1 - __i1
@loop 2
invariant storage.ok(), storage.rows == size, storage.cols == size, __i2 <= __e2,
    forall|i: int, j: int| 0 <= i < __c1 && 0 <= j < size ==> (#[trigger] storage.table()[i][j])@ == self.d(mapping@[i] as int, mapping@[j] as int),
    forall|j: int| 0 <= j < __i2 ==> (#[trigger] storage.table()[__c1 as int][j])@ == self.d(mapping@[__c1 as int] as int, mapping@[j] as int),
decreases __e2 - __i2
@at loop 2 start
proof { lem_table(&storage); }
@at after loop 1
proof { assert(size * size >= 1) by (nonlinear_arith) requires size >= 1; }
@at exit
proof {
    if self.precomputed { lem_max_cells(&__tail); }
}
@endfn
@fn src/models/matrix.rs CorrelationMatrix::new
@blocks
@params distance_matrix
@ret r
@item 1 value (usize, R)
@sort 0 (usize, R)
@spec
requires distance_matrix.ok(), distance_matrix.n() >= 2,
ensures r.ok(), r.n() == distance_matrix.n(), forall|i: int| 0 <= i < r.n() ==> #[trigger] nearest(distance_matrix, i, r.list(i)),
@at start
let ghost nn = distance_matrix.n();
proof { lem_fits_rows(nn); }
@loop 0
invariant size == nn, matrix.ok(), matrix.rows == nn, matrix.cols == width, __i0 <= __e0,
    forall|i: int| 0 <= i < __i0 ==> #[trigger] nearest(distance_matrix, i, matrix.table()[i]),
decreases __e0 - __i0
@at loop 0 head
let ghost t0 = matrix.table();
proof { lem_table(&matrix); assert(__i0 * nn + nn <= nn * nn) by (nonlinear_arith) requires __i0 + 1 <= nn, nn >= 0; }
@at before loop 1
proof {
    assert forall|k: int| 0 <= k < nn implies (#[trigger] __v1@[k])@ == distance_matrix.d(__c0 as int, k) by { lem_row_step(__c0 as int, k, 0, nn); }
}
@loop 1
invariant __i1 <= __v1@.len(), __a1@.len() == others(__c0 as int, __i1 as int),
    forall|k: int| 0 <= k < __a1@.len() ==> (#[trigger] __a1@[k]).0 == other(__c0 as int, k) && __a1@[k].1@ == distance_matrix.d(__c0 as int, other(__c0 as int, k)),
decreases __v1@.len() - __i1
@loop 2
invariant matrix.ok(), matrix.rows == nn, matrix.cols == width, __i2 <= __e2, __e2 == width,
    forall|i: int| 0 <= i < nn && i != __c0 ==> #[trigger] matrix.table()[i] == t0[i],
    forall|k: int| 0 <= k < __i2 ==> #[trigger] matrix.table()[__c0 as int][k] == __sv0@[k].0,
decreases __e2 - __i2
@at before loop 2
proof { lem_table(&matrix); }
@at loop 2 head
proof { lem_table(&matrix); }
@at after loop 2
proof {
    lem_table(&matrix);
    lem_nearest(distance_matrix, __c0 as int, __sv0@, matrix.table()[__c0 as int]);
    assert forall|i: int| 0 <= i <= __c0 implies #[trigger] nearest(distance_matrix, i, matrix.table()[i]) by { if i < __c0 { assert(matrix.table()[i] == t0[i]); assert(nearest(distance_matrix, i, t0[i])); } }
}
@at exit
proof {
    lem_table(&__tail.storage);
    assert forall|i: int| 0 <= i < __tail.n() implies #[trigger] nearest(distance_matrix, i, __tail.list(i)) by { assert(nearest(distance_matrix, i, matrix.table()[i])); }
}
@endfn
@fn src/models/matrix.rs CorrelationMatrix::slice
@params row start number
@ret r: &Vec<usize>
@spec
requires self.ok(), row < self.n(), start + number <= self.width,
ensures r@ == self.list(row as int).subrange(start as int, start + number),
@at start
proof { lem_row_end(row as int, self.storage.rows as int, self.storage.cols as int); lem_table(&self.storage); }
@endfn
@fn src/models/matrix.rs CorrelationMatrix::get
@params row
@ret r: &Vec<usize>
@spec
requires self.ok(), row < self.n(),
ensures r@ == self.list(row as int),
@at exit
proof { lem_table(&self.storage); assert(__tail@ =~= self.list(row as int)); }
@endfn
@fn src/models/matrix.rs CorrelationMatrix::top_slice
@params index number
@ret r: &Vec<usize>
@spec
requires self.ok(), index < self.n(),
ensures r@ == self.list(index as int).subrange(0, if number < self.width { number as int } else { self.width as int }),
@endfn
@fn src/models/matrix.rs CorrelationMatrix::top_slice_mut
@mut self
@params index number
@ret r: &mut Vec<usize>
@spec
requires old(self).ok(), index < old(self).n(),
ensures final(self).ok(), r@ == old(self).list(index as int).subrange(0, if number < old(self).width { number as int } else { old(self).width as int }), final(r)@.len() == r@.len(),
    forall|i: int| 0 <= i < old(self).n() && i != index ==> #[trigger] final(self).list(i) == old(self).list(i),
@at start
let ghost c0 = *self;
proof { lem_table(&c0.storage); }
@endfn
@fn src/models/matrix.rs MatrixProvider::new
@params problem config input_matrix
@ret r
@item 0 Coordinate
@spec
requires 2 <= problem.nodes@.len() <= WIDEST, input_matrix is Some ==> triangular(input_matrix.unwrap()@, problem.nodes@.len() as int),
ensures r.distance.ok(), r.distance.n() == problem.nodes@.len(), r.distance.symmetric(), r.distance.rounded == config.round_distances,
    forall|i: int| 0 <= i < r.distance.n() ==> #[trigger] r.distance.locations@[i] == problem.nodes@[i].coord,
    input_matrix is None ==> r.distance.geometric(),
    input_matrix is Some ==> forall|i: int, j: int| 0 <= j <= i < input_matrix.unwrap()@.len() ==> #[trigger] r.distance.d(i + 1, j) == rd(config.round_distances, input_matrix.unwrap()@[i]@[j]@),
    r.correlation.ok(), r.correlation.n() == r.distance.n(),
    forall|i: int| 0 <= i < r.distance.n() ==> #[trigger] nearest(&r.distance, i, r.correlation.list(i)),
@loop 0
invariant __i0 <= problem.nodes@.len(), __a0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __a0@[i] == problem.nodes@[i].coord,
decreases problem.nodes@.len() - __i0
@endfn
@fn src/models/matrix.rs MatrixProvider::from_mapping
@params mapping
@ptype mapping: &Vec<usize>
@ret r
@spec
requires self.distance.ok(), 2 <= mapping@.len() <= WIDEST, forall|i: int| 0 <= i < mapping@.len() ==> (#[trigger] mapping@[i]) < self.distance.n(),
ensures r.distance.ok(), r.distance.n() == mapping@.len(), self.distance.symmetric() ==> r.distance.symmetric(),
    forall|i: int, j: int| 0 <= i < r.distance.n() && 0 <= j < r.distance.n() ==> #[trigger] r.distance.d(i, j) == self.distance.d(mapping@[i] as int, mapping@[j] as int),
    r.correlation.ok(), r.correlation.n() == r.distance.n(),
    forall|i: int| 0 <= i < r.distance.n() ==> #[trigger] nearest(&r.distance, i, r.correlation.list(i)),
@endfn
