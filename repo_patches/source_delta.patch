From 894e3e0b7e526b3cb9cfaab94a1bd1d437e36577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:36 +0000
Subject: [PATCH 01/25] fix: write the header of every new stream opened with
 the same nbody_data_stream

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..1b21b38 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -178,6 +178,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	else
 	{
 		d->m_file_n = 0;
+		d->m_header_written = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From 351e68b79f2d3188702c0d9991023c5887498989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:36 +0000
Subject: [PATCH 02/25] fix: keep 15 significant digits of the frame time in
 the stream index

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 1b21b38..0b4e687 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -54,6 +54,7 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		m_idx_stream.setDevice(&m_idx);
+		m_idx_stream.setRealNumberPrecision(15);
 		return 0;
 	}
 
-- 
2.43.0


From e11ce72001135fd86b8744d06567ba41faa35b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:36 +0000
Subject: [PATCH 03/25] fix: report failed buffered writes of streams and saved
 body tables

---
 nbody/nbody_data.cpp        |  7 +++++++
 nbody/nbody_data_stream.cpp | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..705fc6e 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -436,6 +436,13 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+	if(s.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
 	return true;
 }
 
diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 0b4e687..9486083 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -54,6 +54,7 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		m_idx_stream.setDevice(&m_idx);
+		m_idx_stream.resetStatus();
 		m_idx_stream.setRealNumberPrecision(15);
 		return 0;
 	}
@@ -71,7 +72,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcolor_t)*bdata->get_count());
-			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz))
+			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz) || !col.flush())
 			{
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
@@ -85,7 +86,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcoord_t)*bdata->get_count());
-			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz))
+			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz) || !mass.flush())
 			{
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
@@ -150,7 +151,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
+	if(!d->m_data.flush())
+	{
+		qDebug() << "Can't write file" << d->m_data.fileName()
+				 << d->m_data.errorString();
+		return -1;
+	}
 
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
@@ -158,6 +164,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 					<< fpos << "\n";
 
 	d->m_idx_stream.flush();
+	if(d->m_idx_stream.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << d->m_idx.fileName()
+				 << d->m_idx.errorString();
+		return -1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 39d33db1cef7401fef7d4d10770b63dc1c4eb0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 04/25] fix: make stream reading independent of earlier loads,
 seeks and reads

---
 nbody/nbody_data_stream_reader.cpp | 41 +++++++++++++++++++-----------
 nbody/nbody_data_stream_reader.h   |  1 +
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..f32b0fa 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -29,16 +29,14 @@ struct nbody_data_stream_reader::data
 	size_t						m_coord_size;
 	size_t						m_body_count;
 	size_t						m_box_size;
-	bool						m_colors_read;
-	bool						m_masses_read;
+	bool						m_positioned;	//!< m_file is at the begin of m_current_frame
 	data() :
 		m_file_n(std::numeric_limits<size_t>::max()),
 		m_current_frame(std::numeric_limits<size_t>::max()),
 		m_coord_size(0),
 		m_body_count(0),
 		m_box_size(0),
-		m_colors_read(false),
-		m_masses_read(false)
+		m_positioned(false)
 	{
 	}
 
@@ -119,6 +117,17 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 {
 	close();
 
+	if(0 != load_index(file_base_name))
+	{
+		close();
+		return -1;
+	}
+
+	return 0;
+}
+
+int nbody_data_stream_reader::load_index(const QString& file_base_name)
+{
 	QFile	idx(nbody_data_stream::make_idx_name(file_base_name));
 
 	if(!idx.open(QFile::ReadOnly))
@@ -194,6 +203,10 @@ void nbody_data_stream_reader::close()
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
+	d->m_positioned = false;
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
 }
 
 size_t nbody_data_stream_reader::get_frame_count() const
@@ -221,7 +234,7 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
+	if(frame == d->m_current_frame && d->m_positioned)
 	{
 		return 0;
 	}
@@ -234,6 +247,8 @@ int nbody_data_stream_reader::seek(size_t frame)
 
 	const data::item&	i(d->m_frames[frame]);
 
+	d->m_positioned = false;
+
 	if(d->m_file_n != i.file_n || !d->m_file.isOpen())
 	{
 		d->m_file.close();
@@ -254,6 +269,7 @@ int nbody_data_stream_reader::seek(size_t frame)
 	}
 
 	d->m_current_frame = frame;
+	d->m_positioned = true;
 
 	return 0;
 }
@@ -300,11 +316,12 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
-	if(0 != seek(d->m_current_frame))
+	if(!d->m_positioned)
 	{
-		qDebug() << "Can't seek to current frame" << d->m_current_frame;
+		qDebug() << "Not positioned to a frame, current frame is" << d->m_current_frame;
 		return -1;
 	}
+	d->m_positioned = false;
 
 	qint64				fpos(d->m_file.pos());
 	qint64				sz(sizeof(nbvertex_t)*bdata->get_count());
@@ -334,17 +351,11 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		}
 	}
 
-	if(!d->m_colors_read)
+	if(0 != d->read_colors(bdata) || 0 != d->read_masses(bdata))
 	{
-		d->m_colors_read = (0 == d->read_colors(bdata));
-	}
-
-	if(!d->m_masses_read)
-	{
-		d->m_masses_read = (0 == d->read_masses(bdata));
+		return -1;
 	}
 
-
 	return 0;
 }
 
diff --git a/nbody/nbody_data_stream_reader.h b/nbody/nbody_data_stream_reader.h
index e36f3ea..d6a9f60 100644
--- a/nbody/nbody_data_stream_reader.h
+++ b/nbody/nbody_data_stream_reader.h
@@ -13,6 +13,7 @@ class NBODY_DLL nbody_data_stream_reader
 
 	nbody_data_stream_reader(const nbody_data_stream_reader&);
 	nbody_data_stream_reader& operator = (const nbody_data_stream_reader&);
+	int load_index(const QString& file_base_name);
 public:
 	nbody_data_stream_reader();
 	virtual ~nbody_data_stream_reader();
-- 
2.43.0


From 1398336941ca809cd4fac93478886ab8b0ddb269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 05/25] fix: restore the box size of bodies read from a stream

---
 nbody/nbody_data.cpp               | 5 +++++
 nbody/nbody_data.h                 | 1 +
 nbody/nbody_data_stream_reader.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 705fc6e..22aaa8e 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -245,6 +245,11 @@ size_t nbody_data::get_box_size() const
 	return m_box_size;
 }
 
+void nbody_data::set_box_size(size_t box_size)
+{
+	m_box_size = box_size;
+}
+
 size_t nbody_data::get_count() const
 {
 	return m_count;
diff --git a/nbody/nbody_data.h b/nbody/nbody_data.h
index 86609ad..bb252ac 100644
--- a/nbody/nbody_data.h
+++ b/nbody/nbody_data.h
@@ -56,6 +56,7 @@ public:
 	nbcolor_t* get_color();
 	const nbcolor_t* get_color() const;
 	size_t get_box_size() const;
+	void set_box_size(size_t box_size);
 	void print_statistics(nbody_engine*);
 	void dump_body(size_t n);
 	bool resize(size_t);
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index f32b0fa..e5730a0 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -342,6 +342,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
+	bdata->set_box_size(d->m_box_size);
 	if(d->m_current_frame < d->m_frames.size() - 1)
 	{
 		if(0 != seek(d->m_current_frame + 1))
-- 
2.43.0


From 5196951d72ec1ac44d85d913130be03367e2d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:42 +0000
Subject: [PATCH 06/25] fix: do not leave a torn index line behind a failed
 stream write

---
 nbody/nbody_data_stream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 9486083..bba051c 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -48,7 +48,7 @@ struct nbody_data_stream::data
 		}
 		m_idx.setFileName(make_idx_name(m_base_name));
 		QFile::OpenMode openmode = append ? QFile::Append : QFile::WriteOnly;
-		if(!m_idx.open(openmode))
+		if(!m_idx.open(openmode | QFile::Unbuffered))
 		{
 			qDebug() << "Can't open file" << m_idx.fileName() << m_idx.errorString();
 			return -1;
@@ -158,6 +158,8 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
+	qint64		idx_size(d->m_idx.size());
+
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
 					<< d->m_file_n << get_idx_separator()
@@ -168,6 +170,7 @@ int nbody_data_stream::write(const nbody_data* bdata)
 	{
 		qDebug() << "Can't write file" << d->m_idx.fileName()
 				 << d->m_idx.errorString();
+		d->m_idx.resize(idx_size);
 		return -1;
 	}
 
-- 
2.43.0


From c34967467bb93dcd875dfacc820296a3b338d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:42 +0000
Subject: [PATCH 07/25] fix: report read errors of stream indices and body
 tables

---
 nbody/nbody_data.cpp               | 5 +++++
 nbody/nbody_data_stream_reader.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 22aaa8e..99c8e17 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -470,6 +470,11 @@ bool nbody_data::load(const QString& fn, e_units_type unit_type)
 	for(size_t line_n = 0; !s.atEnd(); ++line_n)
 	{
 		QString	line(s.readLine());
+		if(file.error() != QFile::NoError)
+		{
+			qDebug() << "Can't read file" << fn << file.errorString();
+			return false;
+		}
 		int		comment_index(line.indexOf(comment));
 		if(comment_index >= 0)
 		{
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index e5730a0..04fa624 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -174,6 +174,11 @@ int nbody_data_stream_reader::load_index(const QString& file_base_name)
 		d->m_time2frame[i.time] = i.frame;
 	}
 
+	if(idx.error() != QFile::NoError)
+	{
+		qDebug() << "Can't read file" << idx.fileName() << idx.errorString();
+		return -1;
+	}
 	if(d->m_body_count == 0 || d->m_coord_size == 0 || d->m_box_size == 0)
 	{
 		qDebug() << "Invalid file header "
-- 
2.43.0


From aecb66b32b4b071551a5707563af8805ebfffa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:43 +0000
Subject: [PATCH 08/25] fix: extrapolate with a one- or two-level
 Bulirsch-Stoer table too

---
 nbody/nbody_solver_bulirsch_stoer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index f6c2468..0748239 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -104,13 +104,14 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 //		g << level << engine()->get_time() << t0;
 		compute_substep(level, dt, t0);
 
-		if(level < 2)
+		bool	last_level = (level + 1 == m_max_level);
+		if(level < 2 && !last_level)
 		{
 			continue;
 		}
 		nbcoord_t	maxdiff = m_extrapolator->estimate_error(level);
 //		g << engine()->get_time() << t0 << dt << maxdiff;
-		if(maxdiff < m_error_threshold || level == m_max_level - 1)
+		if(maxdiff < m_error_threshold || last_level)
 		{
 			m_extrapolator->extrapolate(level, y);
 			break;
-- 
2.43.0


From 782f96eef807c9be770beac6476c88db5de7533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:32 +0000
Subject: [PATCH 09/25] fix: reset the starter and the implicit first approach
 with the solver

---
 nbody/nbody_solver_adams.cpp      | 1 +
 nbody/nbody_solver_rk_butcher.cpp | 8 +++++---
 nbody/nbody_solver_rk_butcher.h   | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..6b267df 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -97,5 +97,6 @@ void nbody_solver_adams::reset()
 	{
 		engine()->fill_buffer(m_corr_data, 0);
 	}
+	m_starter->reset();
 	m_step = 0;
 }
diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..8481dac 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -12,7 +12,8 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 	m_substep_subdivisions(8),
 	m_error_threshold(1e-4),
 	m_refine_steps_count(1),
-	m_correction(false)
+	m_correction(false),
+	m_need_first_approach_k(true)
 {
 }
 
@@ -87,6 +88,7 @@ void nbody_solver_rk_butcher::reset()
 	{
 		engine()->fill_buffer(m_tcorr_data, 0);
 	}
+	m_need_first_approach_k = true;
 }
 
 const nbody_butcher_table* nbody_solver_rk_butcher::table() const
@@ -170,14 +172,14 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 	const nbcoord_t*	c = m_bt->get_c();
 	size_t				ps = engine()->problem_size();
 	size_t				coeff_count = steps + 1;
-	bool				need_first_approach_k = false;
+	bool				need_first_approach_k = m_need_first_approach_k;
 
 	std::vector<nbcoord_t>	coeff;
 	coeff.resize(coeff_count);
+	m_need_first_approach_k = false;
 
 	if(m_k.empty())
 	{
-		need_first_approach_k  = true;
 		m_k = engine()->create_buffers(sizeof(nbcoord_t) * ps, steps);
 		m_t = engine()->create_buffer(sizeof(nbcoord_t) * ps);
 		m_tmpk = engine()->create_buffer(sizeof(nbcoord_t) * ps);
diff --git a/nbody/nbody_solver_rk_butcher.h b/nbody/nbody_solver_rk_butcher.h
index 7b62772..a2b6dae 100644
--- a/nbody/nbody_solver_rk_butcher.h
+++ b/nbody/nbody_solver_rk_butcher.h
@@ -19,6 +19,7 @@ class NBODY_DLL nbody_solver_rk_butcher : public nbody_solver
 	nbcoord_t					m_error_threshold;
 	size_t						m_refine_steps_count;
 	bool						m_correction;
+	bool						m_need_first_approach_k;
 public:
 	explicit nbody_solver_rk_butcher(nbody_butcher_table*);
 	~nbody_solver_rk_butcher();
-- 
2.43.0


From dc1878991d761de5c139098b4de926315825ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:53 +0000
Subject: [PATCH 10/25] fix: evaluate the corrector of the trapeze method at
 the end of the step

---
 nbody/nbody_solver_trapeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..198ff4b 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -41,7 +41,7 @@ void nbody_solver_trapeze::advise(nbcoord_t dt)
 	for(size_t s = 0; s <= m_refine_steps_count; ++s)
 	{
 		const nbcoord_t	coeff[] = { dt / 2_f, dt / 2_f };
-		engine()->fcompute(t, m_predictor, m_f[1]);
+		engine()->fcompute(t + dt, m_predictor, m_f[1]);
 
 		if(s == m_refine_steps_count)
 		{
-- 
2.43.0


From a1bd9b20cd2182cab5a19d0db6a78576fa84be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:36 +0000
Subject: [PATCH 11/25] fix: let the rational extrapolator use the newest
 entered result

The weights of Berrut's scheme left out the level just entered, so the
first extrapolation returned zeros and every later one (and its error
estimate) lagged one level behind.
---
 nbody/nbody_extrapolator.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/nbody/nbody_extrapolator.cpp b/nbody/nbody_extrapolator.cpp
index 0762d4d..8be1b27 100644
--- a/nbody/nbody_extrapolator.cpp
+++ b/nbody/nbody_extrapolator.cpp
@@ -70,7 +70,7 @@ nbcoord_t nbody_extrapolator_berrut::estimate_error(size_t level) const
 	}
 
 	engine()->fill_buffer(m_diff, 0_f);
-	engine()->fmaddn_inplace(m_diff, m_table, w1.data(), level);
+	engine()->fmaddn_inplace(m_diff, m_table, w1.data(), w1.size());
 	engine()->fmaxabs(m_diff, maxdiff);
 	return maxdiff;
 }
@@ -79,23 +79,18 @@ void nbody_extrapolator_berrut::extrapolate(size_t level, nbody_engine::memory*
 {
 	const std::vector<nbcoord_t>	w(weights(level));
 	engine()->fill_buffer(ext_y, 0_f);
-	if(level == 0)
-	{
-		return;
-	}
-	engine()->fmaddn_inplace(ext_y, m_table, w.data(), level);
+	engine()->fmaddn_inplace(ext_y, m_table, w.data(), w.size());
 }
 
 std::vector<nbcoord_t> nbody_extrapolator_berrut::weights(size_t level) const
 {
-	std::vector<nbcoord_t>	w;
-	w.resize(level);
-	for(size_t n = 0; n != level; ++n)
+	std::vector<nbcoord_t>	w(level + 1);
+	for(size_t n = 0; n != w.size(); ++n)
 	{
 		w[n] = std::pow(-1, n + 1) * sub_steps_count(n);
 	}
 	auto sum = std::accumulate(w.begin(), w.end(), 0_f);
-	for(size_t n = 0; n != level; ++n)
+	for(size_t n = 0; n != w.size(); ++n)
 	{
 		w[n] /= sum;
 	}
-- 
2.43.0


From 48bc5694439f37edb01faee358456e04ccbf7b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:35 +0000
Subject: [PATCH 12/25] fix: copy whole buffers of equal size on the host
 engines

---
 nbody/nbody_engine_openmp.cpp | 8 +++++++-
 nbody/nbody_engine_simple.cpp | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_engine_openmp.cpp b/nbody/nbody_engine_openmp.cpp
index 64bf366..120b121 100644
--- a/nbody/nbody_engine_openmp.cpp
+++ b/nbody/nbody_engine_openmp.cpp
@@ -120,9 +120,15 @@ void nbody_engine_openmp::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 		return;
 	}
 
+	if(_a->size() != _b->size())
+	{
+		qDebug() << "Size does not match";
+		return;
+	}
+
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = _a->size() / sizeof(nbcoord_t);
 
 	#pragma omp parallel for
 	for(size_t i = 0; i < count; ++i)
diff --git a/nbody/nbody_engine_simple.cpp b/nbody/nbody_engine_simple.cpp
index 6ef25f8..d0cb82b 100644
--- a/nbody/nbody_engine_simple.cpp
+++ b/nbody/nbody_engine_simple.cpp
@@ -249,10 +249,15 @@ void nbody_engine_simple::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 		qDebug() << "b is not smemory";
 		return;
 	}
+	if(_a->size() != _b->size())
+	{
+		qDebug() << "Size does not match";
+		return;
+	}
 
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = _a->size() / sizeof(nbcoord_t);
 
 	for(size_t i = 0; i < count; ++i)
 	{
-- 
2.43.0


From 6e2812c7d22875d77f1b5ecf0493b6f85146e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:57 +0000
Subject: [PATCH 13/25] fix: let fmaddn set its result when all coefficients
 are zero

---
 nbody/nbody_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_engine.cpp b/nbody/nbody_engine.cpp
index d13ff1d..6977893 100644
--- a/nbody/nbody_engine.cpp
+++ b/nbody/nbody_engine.cpp
@@ -110,6 +110,11 @@ void nbody_engine::fmaddn(memory* a, const memory* b, const memory_array& c,
 		}
 		a_initiated = true;
 	}
+
+	if(!a_initiated && a != b)
+	{
+		copy_buffer(a, b);
+	}
 }
 
 void nbody_engine::print_info() const
-- 
2.43.0


From 397869d4084c87b2f1469a2f90d5589b4904192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 14/25] fix: let the OpenCL norm choose its work-group size,
 four does not divide every block count

---
 nbody/nbody_engine_opencl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..c4d8a28 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1481,7 +1481,6 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 	size_t					device_data_size = problem_size() / device_count;
 	size_t					rdevice_data_size = rsize / device_count;
 	cl::NDRange				global_range(rsize);
-	cl::NDRange				local_range(4);
 	std::vector<cl::Event>	events;
 	smemory					out(sizeof(nbcoord_t)*rsize, d->m_devices);
 
@@ -1490,7 +1489,7 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 		size_t			offset = dev_n * device_data_size;
 		size_t			roffset = dev_n * rdevice_data_size;
 		data::devctx&	ctx(d->m_devices[dev_n]);
-		cl::EnqueueArgs	eargs(ctx.m_queue, global_range, local_range);
+		cl::EnqueueArgs	eargs(ctx.m_queue, global_range, cl::NullRange);
 		cl::Event		ev(ctx.m_fmaxabs(eargs, a->buffer(dev_n), offset,
 										 offset + device_data_size,
 										 out.buffer(dev_n), roffset));
-- 
2.43.0


From a95daf3309213972f0d52032cda36c44f3cd759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 15/25] fix: let an OpenCL buffer be copied onto itself

---
 nbody/nbody_engine_opencl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index c4d8a28..26c1956 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1281,6 +1281,10 @@ void nbody_engine_opencl::copy_buffer(memory* _a, const memory* _b)
 		qDebug() << "Size does not match";
 		return;
 	}
+	if(a == b)
+	{
+		return;
+	}
 
 	if(d->is_all_in_same_context())
 	{
-- 
2.43.0


From 6d9e01f112b4753dc9270787bbe0376639d4bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:11 +0000
Subject: [PATCH 16/25] fix: let the block engine handle body counts that do
 not fill its last block

---
 nbody/nbody_engine_block.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_engine_block.cpp b/nbody/nbody_engine_block.cpp
index 8c12813..3b5b4a6 100644
--- a/nbody/nbody_engine_block.cpp
+++ b/nbody/nbody_engine_block.cpp
@@ -1,5 +1,6 @@
 #include "nbody_engine_block.h"
 #include <omp.h>
+#include <algorithm>
 #include <QDebug>
 
 nbody_engine_block::nbody_engine_block()
@@ -58,7 +59,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		nbcoord_t			total_force_y[block];
 		nbcoord_t			total_force_z[block];
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		const size_t		block1 = std::min(block, count - n1);
+
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 
@@ -76,7 +79,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			nbcoord_t			z2[block];
 			nbcoord_t			m2[block];
 
-			for(size_t b2 = 0; b2 != block; ++b2)
+			const size_t		block2 = std::min(block, count - n2);
+
+			for(size_t b2 = 0; b2 != block2; ++b2)
 			{
 				size_t local_n2 = b2 + n2;
 
@@ -86,9 +91,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 				m2[b2] = mass[n2 + b2];
 			}
 
-			for(size_t b1 = 0; b1 != block; ++b1)
+			for(size_t b1 = 0; b1 != block1; ++b1)
 			{
-				for(size_t b2 = 0; b2 != block; ++b2)
+				for(size_t b2 = 0; b2 != block2; ++b2)
 				{
 					nbcoord_t		dx = x1[b1] - x2[b2];
 					nbcoord_t		dy = y1[b1] - y2[b2];
@@ -112,7 +117,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			}
 		}
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 			frx[local_n1] = vx[local_n1];
-- 
2.43.0


From 0ee4c7e087311d34d4894499920db3546aee50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:29 +0000
Subject: [PATCH 17/25] fix: tell leaves of the tree from cells without extent

---
 nbody/nbody_space_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..66e38bb 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,7 +59,7 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			if(curr->m_body_n == TREE_NO_BODY)
 			{
 				if(curr->m_left != NULL)
 				{
-- 
2.43.0


From 54b1749a88aee93111523da09aa6f52e0e408b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:42 +0000
Subject: [PATCH 18/25] fix: keep the tree heap complete for body counts that
 are no power of two

---
 nbody/nbody_engine_opencl.cl  |  4 ++--
 nbody/nbody_engine_opencl.cpp | 16 +++++++++++-----
 nbody/nbody_space_heap.cpp    | 18 +++++++++++++++---
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cl b/nbody/nbody_engine_opencl.cl
index 41bc35f..66ed296 100644
--- a/nbody/nbody_engine_opencl.cl
+++ b/nbody/nbody_engine_opencl.cl
@@ -453,7 +453,7 @@ __kernel void UpdateLeafBH(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__kernel void UpdateNodeBH(int level_size,
+__kernel void UpdateNodeBH(int level_size, int level_end,
 						   __global nbcoord_t* tree_cmx,
 						   __global nbcoord_t* tree_cmy,
 						   __global nbcoord_t* tree_cmz,
@@ -468,7 +468,7 @@ __kernel void UpdateNodeBH(int level_size,
 						   nbcoord_t distance_to_node_radius_ratio_sqr)
 {
 	int		idx = get_global_id(0) + level_size;
-	if(idx >= 2 * level_size)
+	if(idx >= level_end)
 	{
 		return;
 	}
diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 26c1956..48c7026 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -107,7 +107,7 @@ typedef cl::make_kernel< cl_int, // Points count
 		cl::Buffer	//body indites
 		> UpdateLeafBH;
 
-typedef cl::make_kernel< cl_int, // Level size
+typedef cl::make_kernel< cl_int, cl_int, // Level size, level end
 		cl::Buffer, cl::Buffer, cl::Buffer,	// mass center [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box min [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box max [x, y, z]
@@ -1046,20 +1046,26 @@ void nbody_engine_opencl::data::update_tree(
 		}
 		cl::Event::waitForEvents(events);
 	}
-	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+	size_t	level_size = 1;
+	while(2 * level_size < data_size)
+	{
+		level_size *= 2;
+	}
+	for(; level_size > 0; level_size /= 2)
 	{
 		std::vector<cl::Event>	events;
 
 		nbcoord_t distance_to_node_radius_ratio_sqr
 			= distance_to_node_radius_ratio * distance_to_node_radius_ratio;
-		size_t		level_size = level_count / 2;
-		cl::NDRange	level_range(std::max(level_size, local_range[0]));
+		size_t		level_end = std::min(2 * level_size, data_size);
+		size_t		level_blocks = (level_size + m_block_size - 1) / m_block_size;
+		cl::NDRange	level_range(level_blocks * m_block_size);
 		for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
 		{
 			data::devctx&	ctx(m_devices[dev_n]);
 			cl::EnqueueArgs	eargs(ctx.m_queue, level_range, local_range);
 			cl::Event		ev(
-				ctx.m_update_node_hbh(eargs, level_size,
+				ctx.m_update_node_hbh(eargs, level_size, level_end,
 									  m_tree_cmx->buffer(dev_n),
 									  m_tree_cmy->buffer(dev_n),
 									  m_tree_cmz->buffer(dev_n),
diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..143638e 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -49,10 +49,16 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	size_t	level_size = 1;
+	while(2 * level_size < count)
 	{
+		level_size *= 2;
+	}
+	for(; level_size > 0; level_size /= 2)
+	{
+		size_t	level_end = std::min(2 * level_size, count);
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = level_size; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
@@ -146,7 +152,13 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	// Fill levels from left to right to keep all leaves at [count, 2 * count)
+	size_t	level_size = 1;
+	while(2 * level_size <= count)
+	{
+		level_size *= 2;
+	}
+	size_t	left_size = std::min(count - level_size / 2, level_size);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From 9b93f064f06d941d663d9ae3dcf369b1afeb0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:42 +0000
Subject: [PATCH 19/25] fix: let the neighbour scheme start with a full
 computation at any step

---
 nbody/nbody_engine_ah.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..0682428 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,8 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	if(m_full_recompute_rate == 0 || m_univerce_force.size() != m_data->get_count() ||
+	   m_data->get_step() % m_full_recompute_rate == 0)
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From 93c64e174275238b470e2a4386eb7d7b65d20f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:25 +0000
Subject: [PATCH 20/25] fix: refuse Zeno files whose numbers or count cannot be
 read

---
 nbody/nbody_data.cpp | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 99c8e17..812faba 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -528,6 +528,23 @@ bool nbody_data::load(const QString& fn, e_units_type unit_type)
 	return true;
 }
 
+static bool parse_vertex(const QStringList& columns, nbvertex_t* v)
+{
+	nbcoord_t	xyz[3];
+	for(int n = 0; n != 3; ++n)
+	{
+		bool ok = false;
+		xyz[n] = columns[n].toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert vector to double" << columns;
+			return false;
+		}
+	}
+	*v = nbvertex_t(xyz[0], xyz[1], xyz[2]);
+	return true;
+}
+
 bool nbody_data::load_zeno_ascii(const QString& fn)
 {
 	QFile			file(fn);
@@ -574,6 +591,11 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 	}
+	if(!file.isSequential() && count > static_cast<size_t>(file.size()))
+	{
+		qDebug() << "Body count" << count << "is more than" << fn << "can hold";
+		return false;
+	}
 	if(!resize(count))
 	{
 		qDebug() << "Can't resize data to count" << count;
@@ -590,7 +612,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert mass to double" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -605,9 +633,10 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		if(!parse_vertex(pos_line, &get_vertites()[i]))
+		{
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -623,9 +652,10 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		if(!parse_vertex(vel_line, &get_velosites()[i]))
+		{
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From 27a4e2ef4bb23e3079f06cf7abcef1abec6b4f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:17 +0000
Subject: [PATCH 21/25] fix: refuse Adams ranks without coefficients and an
 Adams starter of itself

---
 nbody/nbody_solvers.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index f78e336..1eaaa16 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -1,4 +1,5 @@
 #include "nbody_solvers.h"
+#include <QDebug>
 
 template<class Solver>
 static nbody_solver* create_butcher_solver(const QVariantMap& param)
@@ -20,14 +21,26 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 	nbody_solver*	solver = NULL;
 	if(type == "adams")
 	{
+		const int	rank = param.value("rank", 1).toInt();
+		if(rank < 1 || rank > 5)
+		{
+			qDebug() << "Invalid rank. Allowed values are 1...5";
+			return NULL;
+		}
+
 		QVariantMap	starter_param(param);
 		starter_param["solver"] = param.value("starter_solver", "euler");
+		if(starter_param["solver"].toString() == type)
+		{
+			qDebug() << "Invalid starter_solver. Adams solver can't start itself";
+			return NULL;
+		}
 		nbody_solver*	starter = nbody_create_solver(starter_param);
 		if(starter == NULL)
 		{
 			return NULL;
 		}
-		solver = new nbody_solver_adams(starter, param.value("rank", 1).toInt(),
+		solver = new nbody_solver_adams(starter, rank,
 										param.value("correction", false).toBool());
 	}
 	else if(type == "bs")
-- 
2.43.0


From 3248b560c00c5d8379a621f00ccba71a092fbbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 22/25] fix: let the Stetter midpoint solver follow wrapped
 coordinates

---
 nbody/nbody_solver_midpoint_stetter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nbody/nbody_solver_midpoint_stetter.cpp b/nbody/nbody_solver_midpoint_stetter.cpp
index 62f136d..86de6f5 100644
--- a/nbody/nbody_solver_midpoint_stetter.cpp
+++ b/nbody/nbody_solver_midpoint_stetter.cpp
@@ -43,6 +43,16 @@ void nbody_solver_midpoint_stetter::advise(nbcoord_t dt)
 		m_uv_initiated = true;
 	}
 
+	if(!first_run)
+	{
+		//Follow a shift of y since the last step (clamp to box)
+		nbcoord_t	shift_coeff[] = {1_f / 2_f, 1_f / 2_f};
+		engine()->fmaddn(m_tmp, nullptr, m_uv, shift_coeff, m_uv.size());	// m_tmp = (u_k + v_k)/2
+		engine()->fmadd(m_du, y, m_tmp, -1_f);				// m_du = y_k - m_tmp
+		engine()->fmadd_inplace(m_uv[0], m_du, 1_f);
+		engine()->fmadd_inplace(m_uv[1], m_du, 1_f);
+	}
+
 	//Compute u_{k+1}
 	{
 		if(first_run)
-- 
2.43.0


From 198ed1cb69efef9c417da9fd7ece0dbf4e7b5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:20 +0000
Subject: [PATCH 23/25] fix: make an empty universe when no stars are requested

The count rounded up to a whole block was 0, and one less than that asked for
2^64 - 1 stars: the generator never ended and took all memory.
---
 nbody/nbody_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 812faba..cf45268 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -269,6 +269,11 @@ void nbody_data::add_galaxy(const nbvertex_t& center, const nbvertex_t& velosity
 							nbcoord_t radius, nbcoord_t total_mass,
 							size_t count, const nbcolor_t& color)
 {
+	if(count == 0)
+	{
+		return;
+	}
+
 	std::mt19937_64	rng;
 	std::uniform_real_distribution<double> uniform(-radius, radius);
 	count = round_up(count, NBODY_DATA_BLOCK_SIZE) - 1;
-- 
2.43.0


From 9e73ee4365549408eaf0595c5f250fc6ee8be774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:10 +0000
Subject: [PATCH 24/25] fix: show the first frame when the player opens

The timeline starts at frame 0, so nothing was read before it moved: all
bodies were drawn at the origin and no frame number was shown.
---
 player/wgt_nbody_player.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/player/wgt_nbody_player.cpp b/player/wgt_nbody_player.cpp
index b19b37f..44aad82 100644
--- a/player/wgt_nbody_player.cpp
+++ b/player/wgt_nbody_player.cpp
@@ -50,6 +50,9 @@ wgt_nbody_player::wgt_nbody_player(nbody_data_stream_reader* stream,
 			this, SLOT(on_update_view()));
 	connect(m_view, SIGNAL(stars_size_range_changed(double, double, double)),
 			m_control, SLOT(on_stars_size_range_changed(double, double, double)));
+
+	m_control->on_frame_number_updated();
+	on_update_data();
 }
 
 wgt_nbody_player::~wgt_nbody_player()
-- 
2.43.0


From 518666b587cafe0dd68a0e107fbf269ce4761350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:48 +0000
Subject: [PATCH 25/25] fix: let a solver end before it was given an engine

The solvers free their buffers through the engine when they are destroyed, also
when they never got one. The starter of the Adams solver gets its engine at the
first step only, so a run that takes no step (resuming a finished run, say)
ended with a segmentation fault.
---
 nbody/nbody_solver_adams.cpp            | 4 ++++
 nbody/nbody_solver_bulirsch_stoer.cpp   | 4 ++++
 nbody/nbody_solver_euler.cpp            | 4 ++++
 nbody/nbody_solver_midpoint.cpp         | 4 ++++
 nbody/nbody_solver_midpoint_stetter.cpp | 4 ++++
 nbody/nbody_solver_rk4.cpp              | 4 ++++
 nbody/nbody_solver_rk_butcher.cpp       | 4 ++++
 nbody/nbody_solver_trapeze.cpp          | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index 6b267df..e4b37ad 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -18,6 +18,10 @@ nbody_solver_adams::nbody_solver_adams(nbody_solver* starter,
 nbody_solver_adams::~nbody_solver_adams()
 {
 	delete m_starter;
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffers(m_f);
 	engine()->free_buffer(m_corr_data);
 }
diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index 0748239..dcabd77 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -52,6 +52,10 @@ nbody_solver_bulirsch_stoer::nbody_solver_bulirsch_stoer(
 
 nbody_solver_bulirsch_stoer::~nbody_solver_bulirsch_stoer()
 {
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffer(m_y0);
 	delete m_extrapolator;
 	delete m_internal;
diff --git a/nbody/nbody_solver_euler.cpp b/nbody/nbody_solver_euler.cpp
index 4b684f9..6bf20b8 100644
--- a/nbody/nbody_solver_euler.cpp
+++ b/nbody/nbody_solver_euler.cpp
@@ -8,6 +8,10 @@ nbody_solver_euler::nbody_solver_euler() : nbody_solver()
 
 nbody_solver_euler::~nbody_solver_euler()
 {
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffer(m_dy);
 }
 
diff --git a/nbody/nbody_solver_midpoint.cpp b/nbody/nbody_solver_midpoint.cpp
index f1d53f3..614060b 100644
--- a/nbody/nbody_solver_midpoint.cpp
+++ b/nbody/nbody_solver_midpoint.cpp
@@ -9,6 +9,10 @@ nbody_solver_midpoint::nbody_solver_midpoint():
 
 nbody_solver_midpoint::~nbody_solver_midpoint()
 {
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffer(m_k1);
 	engine()->free_buffer(m_k2);
 	engine()->free_buffer(m_tmp);
diff --git a/nbody/nbody_solver_midpoint_stetter.cpp b/nbody/nbody_solver_midpoint_stetter.cpp
index 86de6f5..5756295 100644
--- a/nbody/nbody_solver_midpoint_stetter.cpp
+++ b/nbody/nbody_solver_midpoint_stetter.cpp
@@ -9,6 +9,10 @@ nbody_solver_midpoint_stetter::nbody_solver_midpoint_stetter() :
 
 nbody_solver_midpoint_stetter::~nbody_solver_midpoint_stetter()
 {
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffers(m_fu);
 	engine()->free_buffers(m_uv);
 	engine()->free_buffer(m_tmp);
diff --git a/nbody/nbody_solver_rk4.cpp b/nbody/nbody_solver_rk4.cpp
index 62a9c7c..2a52ec3 100644
--- a/nbody/nbody_solver_rk4.cpp
+++ b/nbody/nbody_solver_rk4.cpp
@@ -7,6 +7,10 @@ nbody_solver_rk4::nbody_solver_rk4() : nbody_solver()
 
 nbody_solver_rk4::~nbody_solver_rk4()
 {
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffers(m_k);
 	engine()->free_buffer(m_tmp);
 }
diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 8481dac..dd0a37a 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -20,6 +20,10 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 nbody_solver_rk_butcher::~nbody_solver_rk_butcher()
 {
 	delete m_bt;
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffers(m_k);;
 	engine()->free_buffer(m_t);
 	engine()->free_buffer(m_tmpk);
diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index 198ff4b..1ab08fb 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -9,6 +9,10 @@ nbody_solver_trapeze::nbody_solver_trapeze() : nbody_solver()
 
 nbody_solver_trapeze::~nbody_solver_trapeze()
 {
+	if(engine() == nullptr)
+	{
+		return;
+	}
 	engine()->free_buffers(m_f);
 	engine()->free_buffer(m_predictor);
 }
-- 
2.43.0

