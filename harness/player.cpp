// The player without a screen: user actions and animation time, and recording.
// stdin: open <frames> <bodies> <part limit> | start | pause | stop | forward | backward | move <k> | drag <k> | key <name> | elapse <ms>
//        set <what> <value> | record <png|avi|cancel|none|bad> <cancel after n frames, -1: never> <n:what:argument meanwhile>...
#include "hcommon.h"
#include <memory>
#include <set>
#include <tuple>
#include <unistd.h>
#include <QApplication>
#include <QAnimationDriver>
#include <QAction>
#include <QSlider>
#include <QLabel>
#include <QSpinBox>
#include <QDoubleSpinBox>
#include <QFileDialog>
#include <QProgressDialog>
#include <QKeyEvent>
#include <QImage>
#include <QTimer>
#include <opencv2/opencv.hpp>
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "wgt_nbody_player.h"
#include "wgt_nbody_view.h"

// what the view draws
static const nbody_data* shown = nullptr;
static const nbody_data* last_read = nullptr;
static std::map<std::string, int> frames;
static size_t frame_count = 0;
static QString record_to, record_filter;
static long cancel_after = -1, rendered = 0;
static bool no_image = false;

static std::string content(const nbody_data& d)
{
	std::string s;
	size_t n = d.get_count();
	s.append((const char*)d.get_vertites(), n * sizeof(nbvertex_t)).append((const char*)d.get_velosites(), n * sizeof(nbvertex_t));
	s.append((const char*)d.get_mass(), n * sizeof(nbcoord_t)).append((const char*)d.get_color(), n * sizeof(nbcolor_t));
	nbcoord_t t = d.get_time(); size_t st = d.get_step();
	return s.append((const char*)&t, sizeof(t)).append((const char*)&st, sizeof(st));
}
static int frame_shown()
{
	const nbody_data* d = shown ? shown : last_read;
	if(!d) return -1;
	auto i = frames.find(content(*d));
	return i == frames.end() ? -1 : i->second;
}
static int grey(int frame) { return frame < 0 ? 0 : 20 + frame % 16 * 15; }

extern "C" {
void __real__ZN14wgt_nbody_viewC1EP10nbody_data(void*, nbody_data*) __attribute__((weak));
void __wrap__ZN14wgt_nbody_viewC1EP10nbody_data(void* self, nbody_data* d)
{
	shown = d;
	__real__ZN14wgt_nbody_viewC1EP10nbody_data(self, d);
}
int __real__ZN24nbody_data_stream_reader4readEP10nbody_data(void*, nbody_data*) __attribute__((weak));
int __wrap__ZN24nbody_data_stream_reader4readEP10nbody_data(void* self, nbody_data* d)
{
	last_read = d;
	return __real__ZN24nbody_data_stream_reader4readEP10nbody_data(self, d);
}
}
// what the view was last told about drawing, at first its own initial settings
static const std::map<std::string, double> initially{{"stereo", 0}, {"intensity", 255}, {"size", 1}, {"color", 1}, {"box", 1}, {"scale", 1}};
static std::map<std::string, double> told;
static std::map<std::string, bool> seen;		// settings whose way to the view is known
#define TOLD(sym, name, type) extern "C" void __real_##sym(void*, type) __attribute__((weak)); \
	extern "C" void __wrap_##sym(void* self, type v) { told[name] = double(v); __real_##sym(self, v); } \
	static bool seen_##sym = seen[name] = (&__real_##sym != nullptr);
TOLD(_ZN14wgt_nbody_view15set_stereo_baseEi, "stereo", int)
TOLD(_ZN14wgt_nbody_view18set_star_intensityEi, "intensity", int)
TOLD(_ZN14wgt_nbody_view13set_star_sizeEd, "size", double)
TOLD(_ZN14wgt_nbody_view23set_color_from_velosityEb, "color", bool)
TOLD(_ZN14wgt_nbody_view12set_show_boxEb, "box", bool)
TOLD(_ZN14wgt_nbody_view9set_scaleEd, "scale", double)
// there is no OpenGL here: what is drawn is an image that tells which frame the view holds
QImage stand_in_render(wgt_nbody_view*) __asm__("__wrap__ZN14wgt_nbody_view15render_to_imageEv");
QImage stand_in_render(wgt_nbody_view*)
{
	++rendered;
	if(no_image) return QImage();
	QImage i(64, 64, QImage::Format_RGB32);
	int f = frame_shown(), g = grey(f);
	i.fill(qRgb(g, g, g));
	i.setPixel(0, 0, qRgb((f >> 8) & 255, f & 255, f < 0 ? 1 : 0));
	return i;
}
// the answer of the user to the file dialog
QString stand_in_dialog(QWidget*, const QString&, const QString&, const QString& filters, QString* selected, QFileDialog::Options)
	__asm__("__wrap__ZN11QFileDialog15getSaveFileNameEP7QWidgetRK7QStringS4_S4_PS2_6QFlagsINS_6OptionEE");
QString stand_in_dialog(QWidget*, const QString&, const QString&, const QString& filters, QString* selected, QFileDialog::Options)
{
	QStringList all(filters.contains(";;") ? filters.split(";;") : filters.split("\n"));
	if(selected) for(const QString& f : all) if(f.contains(record_filter)) *selected = f;
	return record_to;
}

struct clock_driver : QAnimationDriver
{
	qint64 now = 0, base = 0;
	qint64 elapsed() const override { return now - base; }		// since the last start
	void start() override { base = now; QAnimationDriver::start(); }
	void pass(qint64 ms) { now += ms; if(isRunning()) advance(); }
};

static std::unique_ptr<nbody_data_stream_reader> reader;
static wgt_nbody_player* player = nullptr;
static QSlider* timeline = nullptr;

static QAction* action(const char* text)
{
	for(QAction* a : player->findChildren<QAction*>()) if(a->text().contains(text, Qt::CaseInsensitive)) return a;
	fprintf(stderr, "no action %s\n", text);
	exit(3);
}
static QDoubleSpinBox* spin(const char* tip)
{
	for(QDoubleSpinBox* b : player->findChildren<QDoubleSpinBox*>()) if(b->toolTip().contains(tip, Qt::CaseInsensitive)) return b;
	return nullptr;
}
// the controls the view does not follow
static std::string not_followed()
{
	std::map<std::string, double> is;
	for(QSlider* s : player->findChildren<QSlider*>()) if(s != timeline) is["stereo"] = s->value();
	for(QSpinBox* s : player->findChildren<QSpinBox*>()) is["intensity"] = s->value();
	if(spin("size")) is["size"] = spin("size")->value();
	if(spin("scale")) is["scale"] = 100 / spin("scale")->value();
	is["color"] = action("Color")->isChecked();
	is["box"] = action("Show box")->isChecked();
	std::string r;
	for(auto& t : told) if(seen[t.first] && is.count(t.first) && is[t.first] != t.second && !(fabs(is[t.first] - t.second) < 1e-9 * fabs(t.second))) r += t.first + " ";
	return r;
}
static void report(const std::string& op, long long arg)
{
	for(int k = 0; k != 3; ++k) QCoreApplication::processEvents();
	std::string s("[");
	for(const char* t : {"Start", "Pause", "Stop", "Backward", "Forward"}) s += std::string(s.size() > 1 ? "," : "") + (action(t)->isEnabled() ? "true" : "false");
	QString label;
	for(QLabel* l : player->findChildren<QLabel*>()) if(l->text().startsWith("F")) label = l->text();
	bool ok = false;
	long long named = label.mid(1).toLongLong(&ok);
	ev("act").str("op", op).num("arg", arg).num("pos", timeline->value()).num("shown", frame_shown()).num("named", ok && label.size() == 9 ? named : -1).raw("enabled", s + "]")
		.str("stale", not_followed()).num("min", timeline->minimum()).num("max", timeline->maximum()).out();
}
int main(int argc, char** argv)
{
	qInstallMessageHandler(quiet_messages);
	QApplication app(argc, argv);
	clock_driver drv;
	drv.install();
	std::string dir(argv[1]), line, op;
	int serial = 0;
	while(std::getline(std::cin, line))
	{
		std::istringstream in(line);
		in >> op;
		if(op == "open")
		{
			size_t bodies; long long limit;
			in >> frame_count >> bodies >> limit;
			delete player; player = nullptr; shown = last_read = nullptr; frames.clear(); told = initially;
			QString base(QString::fromStdString(dir + "/p" + std::to_string(++serial) + "_"));
			nbody_data d;
			mix m(serial);
			for(size_t i = 0; i != bodies; ++i) d.add_body(nbvertex_t(m.uni(), m.uni(), m.uni()), nbvertex_t(m.uni(), m.uni(), m.uni()), 1 + m.uni(), nbcolor_t(float(m.uni()), 1, 1, 1), 0);
			d.set_box_size(10);
			nbody_data_stream w;
			if(0 != w.open(base, limit)) return 3;
			for(size_t f = 0; f != frame_count; ++f)
			{
				d.set_time(double(f) / 4); d.set_step(f * 3);
				for(size_t i = 0; i != bodies; ++i) { d.get_vertites()[i].x = double(f) + m.uni(); d.get_velosites()[i].y = -double(f) - m.uni(); }
				frames[content(d)] = int(f);
				if(0 != w.write(&d)) return 3;
			}
			w.close();
			reader.reset(new nbody_data_stream_reader);
			if(0 != reader->load(base) || reader->get_frame_count() != frame_count) return 3;
			player = new wgt_nbody_player(reader.get(), "PLV");
			timeline = nullptr;
			for(QSlider* s : player->findChildren<QSlider*>()) if(s->toolTip().contains("Timeline", Qt::CaseInsensitive)) timeline = s;
			if(!timeline) return 3;
			report("open", (long long)frame_count);
			// what the view does once it has an OpenGL context
			for(wgt_nbody_view* v : player->findChildren<wgt_nbody_view*>()) QMetaObject::invokeMethod(v, "stars_size_range_changed", Q_ARG(double, 1), Q_ARG(double, 10), Q_ARG(double, 0.5));
		}
		else if(op == "start" || op == "pause" || op == "stop" || op == "forward" || op == "backward")
		{
			if(action(op.c_str())->isEnabled()) action(op.c_str())->trigger();	// a user cannot press a disabled button
			report(op, 0);
		}
		else if(op == "move" || op == "drag")
		{
			int k;
			in >> k;
			if(op == "move") timeline->setValue(k);
			else { timeline->setSliderDown(true); timeline->setSliderPosition(k); timeline->setSliderDown(false); }
			report("move", k);
		}
		else if(op == "key")
		{
			std::string k;
			in >> k;
			std::map<std::string, int> keys{{"right", Qt::Key_Right}, {"left", Qt::Key_Left}, {"home", Qt::Key_Home}, {"end", Qt::Key_End}};
			QKeyEvent press(QEvent::KeyPress, keys[k], Qt::NoModifier);
			QApplication::sendEvent(timeline, &press);
			report(k, 0);
		}
		else if(op == "elapse")
		{
			long long ms;
			in >> ms;
			drv.pass(ms);
			report("elapse", ms);
		}
		else if(op == "set")		// other controls leave the frame alone
		{
			int what;
			in >> what;
			QList<QSpinBox*> s(player->findChildren<QSpinBox*>());
			if(what == 0 && s.size()) s[0]->setValue(1 + (s[0]->value() + 31) % 255);
			else if(what == 1 && spin("scale")) spin("scale")->setValue(spin("scale")->value() < 150 ? spin("scale")->value() + 13 : 70);
			else if(what == 2) action("Show box")->trigger();
			else if(what == 3) action("Color")->trigger();
			else if(what == 4) for(QSlider* sl : player->findChildren<QSlider*>()) { if(sl != timeline) sl->setValue((sl->value() + 7) % 100); }
			else if(spin("size")) spin("size")->setValue(spin("size")->value() < 9 ? spin("size")->value() + 0.5 : 1);
			report("set", what);
		}
		else if(op == "record")
		{
			std::string how;
			in >> how >> cancel_after;
			QString out(QString::fromStdString(dir + "/out" + std::to_string(++serial)));
			no_image = how == "noimage";
			record_filter = how == "avi" ? "avi" : "png";
			record_to = how == "none" ? QString() : out;
			if(how == "bad") { QFile f(out); f.open(QFile::WriteOnly); f.close(); record_to = out + "/sub"; }
			rendered = 0;
			// what happens meanwhile: <after n frames were drawn>:<what>:<argument>
			std::vector<std::tuple<long, std::string, int>> script;
			for(std::string w; in >> w;) { size_t a = w.find(':'), b = w.rfind(':'); script.emplace_back(std::stol(w), w.substr(a + 1, b - a - 1), std::stoi(w.substr(b + 1))); }
			size_t done = 0; long pressed = -2;
			QTimer cancel;
			QObject::connect(&cancel, &QTimer::timeout, [&] {
				if(done < script.size() && rendered > std::max(std::get<0>(script[done]), pressed + 2))	// what a button starts, the event loop goes on with
				{
					std::string what(std::get<1>(script[done])); int arg = std::get<2>(script[done]);
					++done;
					ev("during").str("op", what).num("arg", arg).out();
					if(what == "elapse") drv.pass(arg);
					else if(what == "move") timeline->setValue(arg);
					else if(action(what.c_str())->isEnabled()) { action(what.c_str())->trigger(); pressed = rendered; }
				}
				if(cancel_after >= 0 && rendered > cancel_after) for(QWidget* w : QApplication::topLevelWidgets()) if(QProgressDialog* p = qobject_cast<QProgressDialog*>(w)) p->cancel(); });
			for(QWidget* w : QApplication::topLevelWidgets()) if(qobject_cast<QProgressDialog*>(w)) return 3;
			cancel.start(0);
			action("Record")->trigger();
			cancel.stop();
			// the images, in the order of their names or in the video
			std::string imgs("["); bool strange = false;
			if(how == "avi")
			{
				QString f(out + ".avi");
				if(!QFile::exists(f) && QFile::exists(out)) f = out;
				cv::VideoCapture cap(f.toStdString());
				cv::Mat mat;
				while(cap.isOpened() && cap.read(mat))
				{
					int g = mat.at<cv::Vec3b>(40, 40)[1], best = -1;
					for(int k = 0; k != 16; ++k) if(abs(grey(k) - g) < 7) best = k;
					imgs += (imgs.size() > 1 ? "," : "") + std::to_string(best);
				}
			}
			else
			{
				QStringList names(QDir(out).entryList(QDir::Files | QDir::Dirs | QDir::NoDotAndDotDot, QDir::Name));
				for(int k = 0; k != names.size(); ++k)
				{
					QImage i(out + "/" + names[k]);
					QRgb p = i.isNull() ? qRgb(0, 0, 1) : i.pixel(0, 0);
					strange = strange || names[k] != QString("%1.png").arg(k, 8, 10, QChar('0'));
					imgs += (imgs.size() > 1 ? "," : "") + std::to_string(qBlue(p) ? -1 : qRed(p) * 256 + qGreen(p));
				}
			}
			if(how != "avi") QDir(out).removeRecursively();
			QFile::remove(out + ".avi"); QFile::remove(out);
			ev("record").str("how", how).num("cancel", cancel_after).raw("images", imgs + "]").flag("strange", strange).num("rendered", rendered).out();
			report("recorded", 0);
		}
		else return 2;
	}
	delete player;
	return 0;
}
