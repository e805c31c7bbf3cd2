// Prints the frames of the streams named on stdin, as the reader delivers them.
#include "hcommon.h"
#include "nbody_data_stream_reader.h"
static uint64_t fnv(const void* p, size_t n, uint64_t h)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	for(size_t i = 0; i != n; ++i) h = (h ^ c[i]) * 1099511628211ull;
	return h;
}
int main()
{
	qInstallMessageHandler(quiet_messages);
	std::string fn;
	while(std::getline(std::cin, fn))
	{
		nbody_data_stream_reader r;
		int rc = r.load(QString::fromStdString(fn));
		std::string frames("[");
		size_t bad = 0, bodies = 0, width = 0;
		for(size_t n = 0; rc == 0 && n != r.get_frame_count(); ++n)
		{
			nbody_data d;
			d.resize(r.get_body_count());
			if(0 != r.seek(n) || 0 != r.read(&d)) { ++bad; continue; }
			size_t c = d.get_count();
			uint64_t h = fnv(d.get_vertites(), c * sizeof(nbvertex_t), 14695981039346656037ull);
			h = fnv(d.get_velosites(), c * sizeof(nbvertex_t), h);
			h = fnv(d.get_mass(), c * sizeof(nbcoord_t), h);
			h = fnv(d.get_color(), c * sizeof(nbcolor_t), h);
			size_t box = d.get_box_size();
			h = fnv(&box, sizeof(box), h);
			bodies = c; width = box;
			char b[160];
			snprintf(b, sizeof b, "%s{\"step\":%zu,\"t\":%.17g,\"h\":\"%016llx\"}", n ? "," : "", d.get_step(), double(d.get_time()), (unsigned long long)h);
			frames += b;
		}
		ev("stream").num("rc", rc).num("bad", bad).num("n", bodies).num("box", width).raw("frames", frames + "]").out();
	}
	return 0;
}
