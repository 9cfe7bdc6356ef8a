prop = "P26"
needs = "an empty box whose first point has a negative coordinate, with all further points negative in this coordinate"
breaks = "the bounding box of points on the negative side always reaches to the origin"
edits = [("VirtualRobot/BoundingBox.cpp", """                min(j) = p(j);
            }

            if (std::isnan(max(j)) || p(j) > max(j))""", """                min(j) = p(j);

                if (std::isnan(max(j)) && p(j) < 0)
                {
                    max(j) = 0;
                }
            }

            if (std::isnan(max(j)) || p(j) > max(j))""")]
demo = r'''
#include <VirtualRobot/BoundingBox.h>
#include <iostream>
int main()
{
    VirtualRobot::BoundingBox b;
    b.addPoint(Eigen::Vector3f(-2, 3, -5));
    b.addPoint(Eigen::Vector3f(-3, 1, -7));
    std::cout << b.getMin().transpose() << " / " << b.getMax().transpose() << std::endl;
    return b.getMax() == Eigen::Vector3f(-2, 3, -5) && b.getMin() == Eigen::Vector3f(-3, 1, -7) ? 0 : 1;
}
'''
