import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

WRAP = ["_ZN14wgt_nbody_viewC1EP10nbody_data", "_ZN24nbody_data_stream_reader4readEP10nbody_data", "_ZN14wgt_nbody_view15render_to_imageEv",
        "_ZN11QFileDialog15getSaveFileNameEP7QWidgetRK7QStringS4_S4_PS2_6QFlagsINS_6OptionEE", "_ZN14wgt_nbody_view15set_stereo_baseEi", "_ZN14wgt_nbody_view18set_star_intensityEi", "_ZN14wgt_nbody_view13set_star_sizeEd",
        "_ZN14wgt_nbody_view23set_color_from_velosityEb", "_ZN14wgt_nbody_view12set_show_boxEb", "_ZN14wgt_nbody_view9set_scaleEd"]

def build():
    return vlib.build_harness("player", prog="player", modules=("Core", "Gui", "Widgets", "OpenGL", "Concurrent"),
                              extra=["-I" + os.path.join(vlib.REPO, "player"), "-isystem", "/usr/include/opencv4"],
                              libs=["-Wl,--wrap=" + w for w in WRAP] + ["-lopencv_videoio", "-lopencv_video", "-lopencv_highgui", "-lopencv_imgproc", "-lopencv_core", "-lGLU", "-lGL"])
