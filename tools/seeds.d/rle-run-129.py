prop = "P15"
needs = "a run of exactly 129 equal bytes (or a run whose remainder after full runs has this length)"
breaks = "the length of the run is written in one byte with its top bit set, so that decoding takes it for a long run and returns other data"
edits = [("VirtualRobot/Compression/CompressionRLE.cpp", """            if (count >= 128)
            {
                out[ idx ++ ] = (count >> 8) | 0x80;""", """            if (count > 128)
            {
                out[ idx ++ ] = (count >> 8) | 0x80;""")]
demo = r'''
#include <VirtualRobot/Compression/CompressionRLE.h>
#include <iostream>
#include <vector>
int main()
{
    for (int run = 100; run < 160; run++)
    {
        std::vector<unsigned char> in, out(4000), back(4000, 0);
        for (int i = 0; i < 40; i++) in.push_back((unsigned char)i);
        in.insert(in.end(), run, 7);
        for (int i = 0; i < 300; i++) in.push_back((unsigned char)(i * 3));
        int n = VirtualRobot::CompressionRLE::RLE_Compress(in.data(), out.data(), in.size());
        VirtualRobot::CompressionRLE::RLE_Uncompress(out.data(), back.data(), n);
        back.resize(in.size());
        if (back != in)
        {
            std::cout << "run of " << run << " bytes is not restored" << std::endl;
            return 1;
        }
    }
    return 0;
}
'''
